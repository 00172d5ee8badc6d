#ifndef RMW__CONVERT_RCUTILS_RET_TO_RMW_RET_H_
#define RMW__CONVERT_RCUTILS_RET_TO_RMW_RET_H_
#include "rcutils/types/rcutils_ret.h"
#include "rmw/ret_types.h"
#ifdef __cplusplus
extern "C" {
#endif
rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t rcutils_ret);
#ifdef __cplusplus
}
#endif
#endif
