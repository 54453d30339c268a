// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/decimal/triple.h>
#include <takatori/value/simple_value.h>
namespace takatori::value {
using decimal = simple_value<value_kind::decimal, takatori::decimal::triple>;
}  // namespace takatori::value
