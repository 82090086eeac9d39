// One of the sources of a program, with a compile-time limit of its own.
#undef FALCON_MIN_LOG_LEVEL
#define FALCON_MIN_LOG_LEVEL ::falcon::LLERR
#define VF_PART partErr
#include "h_logger.cpp"
