// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace yugawara::storage {
enum class column_value_kind { nothing, immediate, sequence, function };
}  // namespace yugawara::storage
