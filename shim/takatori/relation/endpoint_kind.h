// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::relation {
enum class endpoint_kind { unbound, inclusive, exclusive, prefixed_inclusive, prefixed_exclusive };
inline std::ostream& operator<<(std::ostream& o, endpoint_kind k) { return o << static_cast<int>(k); }
}  // namespace takatori::relation
