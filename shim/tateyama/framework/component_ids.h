// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
namespace tateyama::framework {
constexpr std::size_t service_id_sql = 1;
constexpr std::size_t service_id_remote_kvs = 2;
constexpr std::size_t resource_id_sql = 3;
constexpr std::size_t resource_id_remote_kvs = 4;
}
