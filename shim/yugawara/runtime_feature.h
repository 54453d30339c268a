// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
#include <takatori/util/enum_set.h>
namespace yugawara {
enum class runtime_feature { broadcast_exchange, aggregate_exchange, index_join, broadcast_join_scan, index_join_scan, always_inline_scalar_local_variables };
inline std::ostream& operator<<(std::ostream& o, runtime_feature c) { return o << static_cast<int>(c); }
using runtime_feature_set = takatori::util::enum_set<runtime_feature, runtime_feature::broadcast_exchange, runtime_feature::always_inline_scalar_local_variables>;
}  // namespace yugawara
