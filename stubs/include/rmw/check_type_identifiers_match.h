#pragma once
#include "rmw/error_handling.h"
