#ifndef RCUTILS__ALLOCATOR_H_
#define RCUTILS__ALLOCATOR_H_
#include <stdbool.h>
#include <stddef.h>
#include "rcutils/macros.h"
#include "rcutils/types/rcutils_ret.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct rcutils_allocator_s
{
  void * (*allocate)(size_t size, void * state);
  void (* deallocate)(void * pointer, void * state);
  void * (*reallocate)(void * pointer, size_t size, void * state);
  void * (*zero_allocate)(size_t number_of_elements, size_t size_of_element, void * state);
  void * state;
} rcutils_allocator_t;
rcutils_allocator_t rcutils_get_zero_initialized_allocator(void);
rcutils_allocator_t rcutils_get_default_allocator(void);
bool rcutils_allocator_is_valid(const rcutils_allocator_t * allocator);
void * rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * allocator);
#ifdef __cplusplus
}
#endif
#define RCUTILS_CHECK_ALLOCATOR(allocator, fail_statement) \
  if (!rcutils_allocator_is_valid(allocator)) {fail_statement;}
#define RCUTILS_CHECK_ALLOCATOR_WITH_MSG(allocator, msg, fail_statement) \
  if (!rcutils_allocator_is_valid(allocator)) { \
    RCUTILS_SET_ERROR_MSG(msg); \
    fail_statement; \
  }
// In the original this header pulls in error_handling through its users.
#include "rcutils/error_handling.h"
#endif
