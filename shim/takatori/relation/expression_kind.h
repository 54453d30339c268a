// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::relation {
enum class expression_kind {
    unknown, find, scan, values, join_find, join_scan, apply, project, filter, buffer, identify, emit, write,
    join_group, aggregate_group, intersection_group, difference_group, flatten_group, take_flat, take_group, take_cogroup, offer,
};
inline std::ostream& operator<<(std::ostream& o, expression_kind k) { return o << static_cast<int>(k); }
}  // namespace takatori::relation
