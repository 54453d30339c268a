// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/type/simple_type.h>
namespace takatori::type {
using date = simple_type<type_kind::date>;
}  // namespace takatori::type
