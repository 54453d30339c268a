// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/type/simple_type.h>
namespace takatori::type {
using datetime_interval = simple_type<type_kind::datetime_interval>;
}  // namespace takatori::type
