#pragma once
#include <stdarg.h>
#include <stddef.h>
#include "rcutils/macros.h"
#include "rcutils/visibility_control.h"
#ifdef __cplusplus
extern "C" {
#endif
RCUTILS_PUBLIC int rcutils_snprintf(char * buffer, size_t buffer_size, const char * format, ...)
RCUTILS_ATTRIBUTE_PRINTF_FORMAT(3, 4);
RCUTILS_PUBLIC int rcutils_vsnprintf(char * buffer, size_t buffer_size, const char * format, va_list args)
RCUTILS_ATTRIBUTE_PRINTF_FORMAT(3, 0);
#ifdef __cplusplus
}
#endif
