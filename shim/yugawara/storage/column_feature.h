// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
#include <takatori/util/enum_set.h>
namespace yugawara::storage {
enum class column_feature { synthesized, hidden, read_only };
inline std::ostream& operator<<(std::ostream& o, column_feature f) { return o << static_cast<int>(f); }
using column_feature_set = takatori::util::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>;
}  // namespace yugawara::storage
