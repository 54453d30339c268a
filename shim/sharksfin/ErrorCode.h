// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <sharksfin/StatusCode.h>
