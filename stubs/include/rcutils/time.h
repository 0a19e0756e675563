#pragma once
#include <stdint.h>
#include "rcutils/types.h"
typedef int64_t rcutils_time_point_value_t;
typedef int64_t rcutils_duration_value_t;
#define RCUTILS_S_TO_NS(seconds) ((seconds) * (1000LL * 1000LL * 1000LL))
#define RCUTILS_MS_TO_NS(milliseconds) ((milliseconds) * (1000LL * 1000LL))
#define RCUTILS_US_TO_NS(microseconds) ((microseconds) * 1000LL)
#define RCUTILS_NS_TO_S(nanoseconds) ((nanoseconds) / (1000LL * 1000LL * 1000LL))
#define RCUTILS_NS_TO_MS(nanoseconds) ((nanoseconds) / (1000LL * 1000LL))
