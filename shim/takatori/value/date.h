// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/datetime/date.h>
#include <takatori/value/simple_value.h>
namespace takatori::value {
using date = simple_value<value_kind::date, datetime::date>;
}  // namespace takatori::value
