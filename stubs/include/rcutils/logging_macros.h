#pragma once
#include "rcutils/logging.h"
#ifdef __cplusplus
#include <cstdlib>
#include <functional>
#include <sstream>
#endif
#define RCUTILS_STUB_LOG(sev, name, ...) do {rcutils_stub_log(sev, name, __VA_ARGS__);} while (0)
#define RCUTILS_LOG_DEBUG(...) RCUTILS_STUB_LOG(10, NULL, __VA_ARGS__)
#define RCUTILS_LOG_INFO(...) RCUTILS_STUB_LOG(20, NULL, __VA_ARGS__)
#define RCUTILS_LOG_WARN(...) RCUTILS_STUB_LOG(30, NULL, __VA_ARGS__)
#define RCUTILS_LOG_ERROR(...) RCUTILS_STUB_LOG(40, NULL, __VA_ARGS__)
#define RCUTILS_LOG_FATAL(...) RCUTILS_STUB_LOG(50, NULL, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_NAMED(name, ...) RCUTILS_STUB_LOG(10, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(name, ...) RCUTILS_STUB_LOG(20, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(name, ...) RCUTILS_STUB_LOG(30, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_NAMED(name, ...) RCUTILS_STUB_LOG(40, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_NAMED(name, ...) RCUTILS_STUB_LOG(50, name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_ONCE_NAMED RCUTILS_LOG_DEBUG_NAMED
#define RCUTILS_LOG_WARN_ONCE_NAMED RCUTILS_LOG_WARN_NAMED
#define RCUTILS_LOG_ERROR_ONCE_NAMED RCUTILS_LOG_ERROR_NAMED
