// Stand-in for the ROS 2 header of the same name (ROS 2 is not installed here).
#ifndef RCUTILS__MACROS_H_
#define RCUTILS__MACROS_H_
#define RCUTILS_WARN_UNUSED __attribute__((warn_unused_result))
#define RCUTILS_UNUSED(x) (void)(x)
#define RCUTILS_LIKELY(x) __builtin_expect((x), 1)
#define RCUTILS_UNLIKELY(x) __builtin_expect((x), 0)
#define RCUTILS_THREAD_LOCAL __thread
#define RCUTILS_STRINGIFY_IMPL(x) #x
#define RCUTILS_STRINGIFY(x) RCUTILS_STRINGIFY_IMPL(x)
#define RCUTILS_JOIN_IMPL(arg1, arg2) arg1 ## arg2
#define RCUTILS_JOIN(arg1, arg2) RCUTILS_JOIN_IMPL(arg1, arg2)
#define RCUTILS_ATTRIBUTE_PRINTF_FORMAT(f, c) __attribute__((format(printf, f, c)))
#define RCUTILS_DEPRECATED __attribute__((deprecated))
#define RCUTILS_DEPRECATED_WITH_MSG(msg) __attribute__((deprecated(msg)))
#define RCUTILS_PUBLIC
#define RCUTILS_PUBLIC_TYPE
#define RCUTILS_LOCAL
// Fault injection (rcutils/testing/fault_injection.h)
#ifdef __cplusplus
extern "C" {
#endif
int _rcutils_fault_injection_maybe_fail(void);
#ifdef __cplusplus
}
#endif
#define RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(return_value_on_error) \
  if (0 == _rcutils_fault_injection_maybe_fail()) {return return_value_on_error;}
#define RCUTILS_FAULT_INJECTION_MAYBE_FAIL(failure_code) \
  if (0 == _rcutils_fault_injection_maybe_fail()) {failure_code;}
#define RCUTILS_CAN_RETURN_WITH_ERROR_OF(e) RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(e)
#define RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(e) RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(e)
#define RCUTILS_CAN_FAIL_WITH(failure_code) RCUTILS_FAULT_INJECTION_MAYBE_FAIL(failure_code)
#endif
