// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/descriptor/function.h>
namespace takatori::descriptor { using aggregate_function = function; }
