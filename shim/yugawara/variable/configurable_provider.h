// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <shared_mutex>
#include <yugawara/variable/basic_configurable_provider.h>
namespace yugawara::variable {
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
}  // namespace yugawara::variable
