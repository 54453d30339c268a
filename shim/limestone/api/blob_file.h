// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <boost/filesystem/path.hpp>
namespace limestone::api {
class blob_file {
public:
    explicit blob_file(boost::filesystem::path p, bool available = false) : p_(std::move(p)), ok_(available) {}
    [[nodiscard]] boost::filesystem::path const& path() const noexcept { return p_; }
    [[nodiscard]] explicit operator bool() const noexcept { return ok_; }
private:
    boost::filesystem::path p_;
    bool ok_;
};
}  // namespace limestone::api
