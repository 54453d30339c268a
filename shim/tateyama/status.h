// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace tateyama {
enum class status { ok, unknown, timeout, operation_denied };
}
