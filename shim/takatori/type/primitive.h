// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/type/boolean.h>
#include <takatori/type/float.h>
#include <takatori/type/int.h>
#include <takatori/type/unknown.h>
