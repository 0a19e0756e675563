#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "rcutils/allocator.h"
#include "rcutils/macros.h"
#include "rcutils/snprintf.h"
#include "rcutils/types/rcutils_ret.h"
#ifdef __cplusplus
extern "C" {
#endif
#define RCUTILS_ERROR_STATE_LINE_NUMBER_STR_MAX_LENGTH 20
#define RCUTILS_ERROR_FORMATTING_CHARACTERS 6
#define RCUTILS_ERROR_MESSAGE_MAX_LENGTH 1024
#define RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH 768
#define RCUTILS_ERROR_STATE_FILE_MAX_LENGTH 229
typedef struct rcutils_error_string_s { char str[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; } rcutils_error_string_t;
typedef struct rcutils_error_state_s {
  char message[RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH];
  char file[RCUTILS_ERROR_STATE_FILE_MAX_LENGTH];
  uint64_t line_number;
} rcutils_error_state_t;
RCUTILS_PUBLIC void rcutils_set_error_state(const char * error_string, const char * file, size_t line_number);
RCUTILS_PUBLIC bool rcutils_error_is_set(void);
RCUTILS_PUBLIC const rcutils_error_state_t * rcutils_get_error_state(void);
RCUTILS_PUBLIC rcutils_error_string_t rcutils_get_error_string(void);
RCUTILS_PUBLIC void rcutils_reset_error(void);
#ifdef __cplusplus
}
#endif
#define RCUTILS_SET_ERROR_MSG(msg) \
  do {rcutils_set_error_state(msg, __FILE__, __LINE__);} while (0)
#define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, ...) \
  do { \
    char output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
    int ret = rcutils_snprintf(output_msg, sizeof(output_msg), format_string, __VA_ARGS__); \
    if (ret >= 0) { RCUTILS_SET_ERROR_MSG(output_msg); } \
  } while (0)
#define RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
  do { \
    if (NULL == value) { \
      RCUTILS_SET_ERROR_MSG(msg); \
      error_statement; \
    } \
  } while (0)
#define RCUTILS_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type) \
  RCUTILS_CHECK_FOR_NULL_WITH_MSG( \
    argument, #argument " argument is null", return error_return_type)
