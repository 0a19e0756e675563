#pragma once
#define RCUTILS_WARN_UNUSED __attribute__((warn_unused_result))
#define RCUTILS_DEPRECATED __attribute__((deprecated))
#define RCUTILS_DEPRECATED_WITH_MSG(msg) __attribute__((deprecated(msg)))
#define RCUTILS_STRINGIFY_IMPL(x) #x
#define RCUTILS_STRINGIFY(x) RCUTILS_STRINGIFY_IMPL(x)
#define RCUTILS_UNUSED(x) (void)(x)
#define RCUTILS_JOIN_IMPL(arg1, arg2) arg1 ## arg2
#define RCUTILS_JOIN(arg1, arg2) RCUTILS_JOIN_IMPL(arg1, arg2)
#define RCUTILS_LIKELY(x) (x)
#define RCUTILS_UNLIKELY(x) (x)
#define RCUTILS_CAN_RETURN_WITH_ERROR_OF(error_return_value)
#define RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(error_return_value)
#define RCUTILS_CAN_FAIL_WITH(failure_code)
#define RCUTILS_ATTRIBUTE_PRINTF_FORMAT(format_string_index, first_to_check_index) \
  __attribute__((format(printf, format_string_index, first_to_check_index)))
#define RCUTILS_NO_FAULT_INJECTION(code) code
