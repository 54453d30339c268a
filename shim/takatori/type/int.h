// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/type/simple_type.h>
namespace takatori::type {
using int1 = simple_type<type_kind::int1>;
using int2 = simple_type<type_kind::int2>;
using int4 = simple_type<type_kind::int4>;
using int8 = simple_type<type_kind::int8>;
}  // namespace takatori::type
