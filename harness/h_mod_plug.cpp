#define VF_MODULE modPlug
#include "h_mod.h"
