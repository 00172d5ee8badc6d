#ifndef RMW__ALLOCATORS_H_
#define RMW__ALLOCATORS_H_
#include "rmw/types.h"
#endif
