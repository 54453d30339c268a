// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/type/simple_type.h>
namespace takatori::type {
using blob = simple_type<type_kind::blob>;
using clob = simple_type<type_kind::clob>;
}  // namespace takatori::type
