// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::scalar {
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal, is_not_distinct_from, is_distinct_from };
inline std::ostream& operator<<(std::ostream& o, comparison_operator v) { return o << static_cast<int>(v); }
}  // namespace takatori::scalar
