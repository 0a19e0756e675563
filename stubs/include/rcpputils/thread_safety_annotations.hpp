#pragma once
#define RCPPUTILS_TSA_GUARDED_BY(x)
#define RCPPUTILS_TSA_REQUIRES(...)
#define RCPPUTILS_TSA_CAPABILITY(x)
#define RCPPUTILS_TSA_EXCLUDES(...)
