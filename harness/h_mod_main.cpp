#define VF_MODULE modMain
#include "h_mod.h"
