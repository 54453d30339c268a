// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::scalar {
enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
inline std::ostream& operator<<(std::ostream& o, binary_operator v) { return o << static_cast<int>(v); }
}  // namespace takatori::scalar
