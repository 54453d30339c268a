// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::relation {
enum class write_kind { insert, insert_skip, insert_overwrite, update, delete_ };
inline std::ostream& operator<<(std::ostream& o, write_kind k) { return o << static_cast<int>(k); }
}  // namespace takatori::relation
