// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
#include <takatori/util/enum_set.h>
namespace yugawara::storage {
enum class index_feature { primary, find, scan, unique, unique_constraint };
inline std::ostream& operator<<(std::ostream& o, index_feature f) { return o << static_cast<int>(f); }
using index_feature_set = takatori::util::enum_set<index_feature, index_feature::primary, index_feature::unique_constraint>;
}  // namespace yugawara::storage
