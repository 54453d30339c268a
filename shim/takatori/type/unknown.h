// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/type/simple_type.h>
namespace takatori::type {
using unknown = simple_type<type_kind::unknown>;
}  // namespace takatori::type
