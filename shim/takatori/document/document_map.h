// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/document/region.h>
namespace takatori::document {
class document_map {};
}  // namespace takatori::document
