// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/datetime/time_point.h>
#include <takatori/value/simple_value.h>
namespace takatori::value {
using time_point = simple_value<value_kind::time_point, datetime::time_point>;
}  // namespace takatori::value
