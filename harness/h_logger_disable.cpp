// One of the sources of a program, with a compile-time limit of its own.
#undef FALCON_MIN_LOG_LEVEL
#define FALCON_MIN_LOG_LEVEL ::falcon::LLDISABLE
#define VF_PART partDisable
#include "h_logger.cpp"
