#pragma once
#include <rcutils/error_handling.h>
typedef rcutils_error_string_t rmw_error_string_t;
typedef rcutils_error_state_t rmw_error_state_t;
#define rmw_set_error_state rcutils_set_error_state
#define RMW_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement)
#define RMW_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type) \
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type)
#define RMW_SET_ERROR_MSG(msg) RCUTILS_SET_ERROR_MSG(msg)
#define RMW_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, ...) \
  RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, __VA_ARGS__)
#define RMW_CHECK_TYPE_IDENTIFIERS_MATCH(element_name, element_type_id, expected_type_id, on_failure) \
  do { if ((element_type_id) != (expected_type_id)) { RMW_SET_ERROR_MSG("type id mismatch"); on_failure; } } while (0)
#define rmw_error_is_set rcutils_error_is_set
#define rmw_get_error_state rcutils_get_error_state
#define rmw_get_error_string rcutils_get_error_string
#define rmw_reset_error rcutils_reset_error
