// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <stdexcept>
#include <string>
namespace limestone::api {
enum class exception_type { blob_error, io_error };
class limestone_blob_exception : public std::runtime_error {
public:
    limestone_blob_exception(exception_type, std::string const& m, int) : std::runtime_error(m) {}
};
}  // namespace limestone::api
