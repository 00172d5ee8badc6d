#ifndef RCUTILS__FIND_H_
#define RCUTILS__FIND_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
static inline size_t rcutils_findn(const char * str, char delimiter, size_t string_length)
{
  if (!str) {return SIZE_MAX;}
  for (size_t i = 0; i < string_length; ++i) {
    if (str[i] == delimiter) {return i;}
  }
  return SIZE_MAX;
}
static inline size_t rcutils_find(const char * str, char delimiter)
{
  return str ? rcutils_findn(str, delimiter, strlen(str)) : SIZE_MAX;
}
static inline size_t rcutils_find_lastn(const char * str, char delimiter, size_t string_length)
{
  if (!str) {return SIZE_MAX;}
  for (size_t i = string_length; i-- > 0; ) {
    if (str[i] == delimiter) {return i;}
  }
  return SIZE_MAX;
}
static inline size_t rcutils_find_last(const char * str, char delimiter)
{
  return str ? rcutils_find_lastn(str, delimiter, strlen(str)) : SIZE_MAX;
}
#endif
