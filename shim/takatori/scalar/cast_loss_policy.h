// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::scalar {
enum class cast_loss_policy { ignore, floor, ceil, unknown, warn, error };
inline std::ostream& operator<<(std::ostream& o, cast_loss_policy v) { return o << static_cast<int>(v); }
}  // namespace takatori::scalar
