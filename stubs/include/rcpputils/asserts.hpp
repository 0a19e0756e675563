#pragma once
#include <stdexcept>
#include <string>
namespace rcpputils
{
inline void require_true(bool condition, const std::string & msg = "invalid argument passed")
{if (!condition) {throw std::invalid_argument{msg};}}
inline void check_true(bool condition, const std::string & msg = "check reported invalid state")
{if (!condition) {throw std::runtime_error{msg};}}
}
