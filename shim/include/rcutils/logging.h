#ifndef RCUTILS__LOGGING_H_
#define RCUTILS__LOGGING_H_
#include "rcutils/logging_macros.h"
enum RCUTILS_LOG_SEVERITY
{
  RCUTILS_LOG_SEVERITY_UNSET = 0,
  RCUTILS_LOG_SEVERITY_DEBUG = 10,
  RCUTILS_LOG_SEVERITY_INFO = 20,
  RCUTILS_LOG_SEVERITY_WARN = 30,
  RCUTILS_LOG_SEVERITY_ERROR = 40,
  RCUTILS_LOG_SEVERITY_FATAL = 50,
};
#define rcutils_logging_logger_is_enabled_for(name, severity) ((void)(name), (severity) >= RCUTILS_LOG_SEVERITY_INFO)
#endif
