#define VF_MODULE modLib
#include "h_mod.h"
