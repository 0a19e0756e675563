#pragma once
#include <stdbool.h>
#include <stddef.h>
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/macros.h"
#include "rcutils/types/rcutils_ret.h"
#ifdef __cplusplus
extern "C" {
#endif
RCUTILS_PUBLIC void rcutils_stub_log(int severity, const char * name, const char * format, ...);
#ifdef __cplusplus
}
#endif
