#ifndef RMW__ERROR_HANDLING_H_
#define RMW__ERROR_HANDLING_H_
#include "rcutils/error_handling.h"
#include "rmw/ret_types.h"
typedef rcutils_error_string_t rmw_error_string_t;
typedef rcutils_error_state_t rmw_error_state_t;
#define rmw_set_error_state rcutils_set_error_state
#define rmw_error_is_set rcutils_error_is_set
#define rmw_get_error_state rcutils_get_error_state
#define rmw_get_error_string rcutils_get_error_string
#define rmw_reset_error rcutils_reset_error
#define RMW_SET_ERROR_MSG(msg) RCUTILS_SET_ERROR_MSG(msg)
#define RMW_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, ...) \
  RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, __VA_ARGS__)
#define RMW_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement)
#define RMW_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type) \
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type)
#define RMW_CHECK_TYPE_IDENTIFIERS_MATCH(ElementName, ElementTypeID, ExpectedTypeID, OnFailure) \
  do { if (ElementTypeID != ExpectedTypeID) { RMW_SET_ERROR_MSG(#ElementName " implementation mismatch"); OnFailure; } } while (0)
#endif
