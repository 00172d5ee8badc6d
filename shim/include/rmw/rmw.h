#ifndef RMW__RMW_H_
#define RMW__RMW_H_
#include "rmw/types.h"
#include "rmw/qos_profiles.h"
#include "rmw/error_handling.h"
#endif
