// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/type/simple_type.h>
namespace takatori::type {
using float4 = simple_type<type_kind::float4>;
using float8 = simple_type<type_kind::float8>;
}  // namespace takatori::type
