#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
size_t rcutils_find(const char * str, char delimiter);
size_t rcutils_find_last(const char * str, char delimiter);
#ifdef __cplusplus
}
#endif
