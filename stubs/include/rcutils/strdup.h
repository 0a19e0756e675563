#pragma once
#include <stddef.h>
#include "rcutils/allocator.h"
#ifdef __cplusplus
extern "C" {
#endif
RCUTILS_PUBLIC RCUTILS_WARN_UNUSED char * rcutils_strdup(const char * str, rcutils_allocator_t allocator);
RCUTILS_PUBLIC RCUTILS_WARN_UNUSED char * rcutils_strndup(
  const char * str, size_t string_length, rcutils_allocator_t allocator);
#ifdef __cplusplus
}
#endif
