#pragma once
#include "rcutils/macros.h"
#define RMW_STRINGIFY(x) RCUTILS_STRINGIFY(x)
#define RMW_WARN_UNUSED RCUTILS_WARN_UNUSED
#define RMW_UNUSED RCUTILS_UNUSED
