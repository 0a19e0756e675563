#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
namespace rmw
{
namespace impl
{
namespace cpp
{
std::map<std::string, std::vector<uint8_t>> parse_key_value(std::vector<uint8_t> kv);
}  // namespace cpp
}  // namespace impl
}  // namespace rmw
