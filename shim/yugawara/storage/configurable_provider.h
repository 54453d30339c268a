// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <shared_mutex>
#include <yugawara/storage/basic_configurable_provider.h>
namespace yugawara::storage {
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
}  // namespace yugawara::storage
