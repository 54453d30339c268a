// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/datetime/time_of_day.h>
#include <takatori/value/simple_value.h>
namespace takatori::value {
using time_of_day = simple_value<value_kind::time_of_day, datetime::time_of_day>;
}  // namespace takatori::value
