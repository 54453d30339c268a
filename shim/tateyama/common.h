// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/util/maybe_shared_ptr.h>
#define trace_scope_name(x) do {} while (false)
#define trace_scope do {} while (false)
