// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::statement {
enum class statement_kind { execute, write, create_table, drop_table, create_index, drop_index, grant_table, revoke_table, truncate_table, empty, rename_column, rename_index, rename_table, extension };
inline std::ostream& operator<<(std::ostream& o, statement_kind k) { return o << "statement_kind(" << static_cast<int>(k) << ")"; }
}  // namespace takatori::statement
