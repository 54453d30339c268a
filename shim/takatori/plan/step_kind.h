// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::plan {
enum class step_kind { process, forward, group, aggregate, broadcast, discard };
}  // namespace takatori::plan
