// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/util/enum_set.h>
namespace takatori::statement {
enum class truncate_table_option_kind { restart_identity };
using truncate_table_option_kind_set = util::enum_set<truncate_table_option_kind, truncate_table_option_kind::restart_identity, truncate_table_option_kind::restart_identity>;
}  // namespace takatori::statement
