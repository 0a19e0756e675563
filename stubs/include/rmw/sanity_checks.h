#pragma once
#include "rmw/macros.h"
#include "rmw/types.h"
#ifdef __cplusplus
extern "C" {
#endif
RMW_WARN_UNUSED rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * array);
#ifdef __cplusplus
}
#endif
