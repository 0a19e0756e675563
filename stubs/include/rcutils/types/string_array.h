#pragma once
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/types/rcutils_ret.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct rcutils_string_array_s {
  size_t size;
  char ** data;
  rcutils_allocator_t allocator;
} rcutils_string_array_t;
RCUTILS_PUBLIC RCUTILS_WARN_UNUSED rcutils_string_array_t rcutils_get_zero_initialized_string_array(void);
RCUTILS_PUBLIC RCUTILS_WARN_UNUSED rcutils_ret_t rcutils_string_array_init(
  rcutils_string_array_t * string_array, size_t size, const rcutils_allocator_t * allocator);
RCUTILS_PUBLIC RCUTILS_WARN_UNUSED rcutils_ret_t rcutils_string_array_fini(
  rcutils_string_array_t * string_array);
RCUTILS_PUBLIC RCUTILS_WARN_UNUSED rcutils_ret_t rcutils_string_array_resize(
  rcutils_string_array_t * string_array, size_t new_size);
#ifdef __cplusplus
}
#endif
