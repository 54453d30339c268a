// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace takatori::plan {
enum class group_mode { equivalence, equivalence_or_whole };
}  // namespace takatori::plan
