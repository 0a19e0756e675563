#pragma once
#include "rcutils/allocator.h"
#ifdef __cplusplus
extern "C" {
#endif
#define rcutils_format_string(allocator, format_string, ...) \
  rcutils_format_string_limit(allocator, 2048, format_string, __VA_ARGS__)
RCUTILS_PUBLIC char * rcutils_format_string_limit(
  rcutils_allocator_t allocator, size_t limit, const char * format_string, ...);
#ifdef __cplusplus
}
#endif
