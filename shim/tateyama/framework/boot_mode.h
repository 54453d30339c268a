// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace tateyama::framework {
enum class boot_mode { database_server, maintenance_server, maintenance_standalone, quiescent_server };
}
