// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::relation {
enum class sort_direction { ascendant, descendant };
inline std::ostream& operator<<(std::ostream& o, sort_direction d) { return o << (d == sort_direction::ascendant ? "ascendant" : "descendant"); }
}  // namespace takatori::relation
