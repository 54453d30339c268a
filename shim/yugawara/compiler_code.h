// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace yugawara {
enum class compiler_code { unknown, unsupported_feature, ambiguous_type, inconsistent_type, unsupported_type, unresolved_variable, inconsistent_elements, invalid_expression };
inline std::ostream& operator<<(std::ostream& o, compiler_code c) { return o << static_cast<int>(c); }
}  // namespace yugawara
