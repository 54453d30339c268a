// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/serializer/json_printer.h>
#include <takatori/serializer/object_scanner.h>
