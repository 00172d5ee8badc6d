#ifndef RCUTILS__SNPRINTF_H_
#define RCUTILS__SNPRINTF_H_
#include <stdarg.h>
#include <stddef.h>
#include "rcutils/macros.h"
#ifdef __cplusplus
extern "C" {
#endif
RCUTILS_ATTRIBUTE_PRINTF_FORMAT(3, 4)
int rcutils_snprintf(char * buffer, size_t buffer_size, const char * format, ...);
RCUTILS_ATTRIBUTE_PRINTF_FORMAT(3, 0)
int rcutils_vsnprintf(char * buffer, size_t buffer_size, const char * format, va_list args);
#ifdef __cplusplus
}
#endif
#endif
