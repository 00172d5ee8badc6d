#ifndef RMW__IMPL__CPP__MACROS_HPP_
#define RMW__IMPL__CPP__MACROS_HPP_
#include "rmw/error_handling.h"
#include "rmw/macros.h"
#endif
