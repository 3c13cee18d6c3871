#ifndef VERIF_SHIM_TYPES_H_
#define VERIF_SHIM_TYPES_H_
#include "fst/types.h"
typedef signed int char32;
#endif
