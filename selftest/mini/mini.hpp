#pragma once
#include <cstdio>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include "rcutils/allocator.h"
#include "rmw/types.h"
/// Allocator that counts, can fail, and knows what is alive.
struct Heap
{
  Heap();
  void * get(size_t n);
  void put(void * p);
  rcutils_allocator_t a;
  std::set<void *> live;
  int calls = 0, fail_at = 0, wrong = 0;
};
inline rmw_gid_t gid(uint8_t first, uint8_t last = 0)
{
  rmw_gid_t g{};
  g.implementation_identifier = "demo";
  g.data[0] = first;
  g.data[15] = last;
  return g;
}
#define CHECK(c) do {if (!(c)) {std::printf("FAILED line %d: %s\n", __LINE__, #c); return 1;}} while (0)
