// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace yugawara::storage {
enum class relation_kind { table, view };
}  // namespace yugawara::storage
