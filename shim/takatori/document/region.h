// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::document {
class region {
public:
    friend std::ostream& operator<<(std::ostream& o, region const&) { return o << "(unknown)"; }
};
}  // namespace takatori::document
