// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::serializer { class json_printer { public: explicit json_printer(std::ostream& o) : out_(o) {} std::ostream& out_; }; }
