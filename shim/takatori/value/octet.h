// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <string>
#include <string_view>
#include <takatori/value/simple_value.h>
namespace takatori::value {
using octet = simple_value<value_kind::octet, std::string, std::string_view>;
}  // namespace takatori::value
