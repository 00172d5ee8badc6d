#ifndef RCUTILS__ISALNUM_NO_LOCALE_H_
#define RCUTILS__ISALNUM_NO_LOCALE_H_
#include <stdbool.h>
static inline bool rcutils_isalnum_no_locale(char c)
{
  return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
}
#endif
