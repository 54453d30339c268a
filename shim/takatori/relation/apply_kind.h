// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::relation {
enum class apply_kind { cross, outer };
inline std::ostream& operator<<(std::ostream& o, apply_kind k) { return o << static_cast<int>(k); }
}  // namespace takatori::relation
