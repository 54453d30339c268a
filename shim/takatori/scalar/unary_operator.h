// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::scalar {
enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
inline std::ostream& operator<<(std::ostream& o, unary_operator v) { return o << static_cast<int>(v); }
}  // namespace takatori::scalar
