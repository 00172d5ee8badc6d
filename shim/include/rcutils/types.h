#ifndef RCUTILS__TYPES_H_
#define RCUTILS__TYPES_H_
#include "rcutils/types/rcutils_ret.h"
#include "rcutils/types/string_array.h"
#endif
