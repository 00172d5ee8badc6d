#ifndef RCUTILS__LOGGING_MACROS_H_
#define RCUTILS__LOGGING_MACROS_H_
#include "rcutils/macros.h"
#ifdef __cplusplus
extern "C" {
#endif
RCUTILS_ATTRIBUTE_PRINTF_FORMAT(3, 4)
void shim_log(int severity, const char * name, const char * format, ...);
#ifdef __cplusplus
}
#endif
#define RCUTILS_LOG_MIN_SEVERITY_DEBUG 0
#define RCUTILS_LOG_MIN_SEVERITY_INFO 1
#define RCUTILS_LOG_MIN_SEVERITY_WARN 2
#define RCUTILS_LOG_MIN_SEVERITY_ERROR 3
#define RCUTILS_LOG_MIN_SEVERITY_FATAL 4
#define RCUTILS_LOG_MIN_SEVERITY_NONE 5
#ifndef RCUTILS_LOG_MIN_SEVERITY
#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_DEBUG
#endif
#define RCUTILS_LOGGING_AUTOINIT
#define RCUTILS_LOG_COND_NAMED(severity, cond, name, ...) \
  do {if (cond) {shim_log(severity, name, __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_DEBUG(...) shim_log(10, NULL, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_NAMED(name, ...) shim_log(10, name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_ONCE(...) shim_log(10, NULL, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_ONCE_NAMED(name, ...) shim_log(10, name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_EXPRESSION(expression, ...) RCUTILS_LOG_COND_NAMED(10, expression, NULL, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_EXPRESSION_NAMED(expression, name, ...) RCUTILS_LOG_COND_NAMED(10, expression, name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_FUNCTION(function, ...) RCUTILS_LOG_COND_NAMED(10, (*(function))(), NULL, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_FUNCTION_NAMED(function, name, ...) RCUTILS_LOG_COND_NAMED(10, (*(function))(), name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_SKIPFIRST(...) shim_log(10, NULL, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_SKIPFIRST_NAMED(name, ...) shim_log(10, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO(...) shim_log(20, NULL, __VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(name, ...) shim_log(20, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_ONCE(...) shim_log(20, NULL, __VA_ARGS__)
#define RCUTILS_LOG_INFO_ONCE_NAMED(name, ...) shim_log(20, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_EXPRESSION(expression, ...) RCUTILS_LOG_COND_NAMED(20, expression, NULL, __VA_ARGS__)
#define RCUTILS_LOG_INFO_EXPRESSION_NAMED(expression, name, ...) RCUTILS_LOG_COND_NAMED(20, expression, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_FUNCTION(function, ...) RCUTILS_LOG_COND_NAMED(20, (*(function))(), NULL, __VA_ARGS__)
#define RCUTILS_LOG_INFO_FUNCTION_NAMED(function, name, ...) RCUTILS_LOG_COND_NAMED(20, (*(function))(), name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_SKIPFIRST(...) shim_log(20, NULL, __VA_ARGS__)
#define RCUTILS_LOG_INFO_SKIPFIRST_NAMED(name, ...) shim_log(20, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN(...) shim_log(30, NULL, __VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(name, ...) shim_log(30, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_ONCE(...) shim_log(30, NULL, __VA_ARGS__)
#define RCUTILS_LOG_WARN_ONCE_NAMED(name, ...) shim_log(30, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_EXPRESSION(expression, ...) RCUTILS_LOG_COND_NAMED(30, expression, NULL, __VA_ARGS__)
#define RCUTILS_LOG_WARN_EXPRESSION_NAMED(expression, name, ...) RCUTILS_LOG_COND_NAMED(30, expression, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_FUNCTION(function, ...) RCUTILS_LOG_COND_NAMED(30, (*(function))(), NULL, __VA_ARGS__)
#define RCUTILS_LOG_WARN_FUNCTION_NAMED(function, name, ...) RCUTILS_LOG_COND_NAMED(30, (*(function))(), name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_SKIPFIRST(...) shim_log(30, NULL, __VA_ARGS__)
#define RCUTILS_LOG_WARN_SKIPFIRST_NAMED(name, ...) shim_log(30, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR(...) shim_log(40, NULL, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_NAMED(name, ...) shim_log(40, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_ONCE(...) shim_log(40, NULL, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_ONCE_NAMED(name, ...) shim_log(40, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_EXPRESSION(expression, ...) RCUTILS_LOG_COND_NAMED(40, expression, NULL, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_EXPRESSION_NAMED(expression, name, ...) RCUTILS_LOG_COND_NAMED(40, expression, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_FUNCTION(function, ...) RCUTILS_LOG_COND_NAMED(40, (*(function))(), NULL, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_FUNCTION_NAMED(function, name, ...) RCUTILS_LOG_COND_NAMED(40, (*(function))(), name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_SKIPFIRST(...) shim_log(40, NULL, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_SKIPFIRST_NAMED(name, ...) shim_log(40, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL(...) shim_log(50, NULL, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_NAMED(name, ...) shim_log(50, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_ONCE(...) shim_log(50, NULL, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_ONCE_NAMED(name, ...) shim_log(50, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_EXPRESSION(expression, ...) RCUTILS_LOG_COND_NAMED(50, expression, NULL, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_EXPRESSION_NAMED(expression, name, ...) RCUTILS_LOG_COND_NAMED(50, expression, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_FUNCTION(function, ...) RCUTILS_LOG_COND_NAMED(50, (*(function))(), NULL, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_FUNCTION_NAMED(function, name, ...) RCUTILS_LOG_COND_NAMED(50, (*(function))(), name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_SKIPFIRST(...) shim_log(50, NULL, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_SKIPFIRST_NAMED(name, ...) shim_log(50, name, __VA_ARGS__)
#endif
