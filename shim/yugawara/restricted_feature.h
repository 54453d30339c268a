// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
#include <takatori/util/enum_set.h>
namespace yugawara {
enum class restricted_feature { relation_identify, relation_difference, relation_intersection, exchange_broadcast, exchange_discard, statement_write_delete, statement_write_update,
    statement_rename_column, statement_rename_index, statement_rename_table, statement_truncate_table, statement_truncate_table_restart_identity };
inline std::ostream& operator<<(std::ostream& o, restricted_feature c) { return o << static_cast<int>(c); }
class restricted_feature_set : public takatori::util::enum_set<restricted_feature, restricted_feature::relation_identify, restricted_feature::statement_truncate_table_restart_identity> {
public:
    using enum_set::enum_set;
    restricted_feature_set& operator+=(restricted_feature_set const& o) { insert(o); return *this; }
};
}  // namespace yugawara
