#pragma once
#define RCUTILS_PUBLIC
#define RCUTILS_LOCAL
