// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace takatori::serializer { class object_scanner {}; }
