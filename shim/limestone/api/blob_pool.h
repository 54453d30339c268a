// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <string_view>
#include <boost/filesystem/path.hpp>
namespace limestone::api {
using blob_id_type = std::uint64_t;
using blob_reference_tag_type = std::uint64_t;
class blob_pool {
public:
    blob_pool() = default;
    virtual ~blob_pool() = default;
    blob_pool(blob_pool const&) = delete;
    blob_pool& operator=(blob_pool const&) = delete;
    virtual void release() = 0;
    [[nodiscard]] virtual blob_id_type register_file(boost::filesystem::path const& file, bool is_temporary_file) = 0;
    [[nodiscard]] virtual blob_id_type register_data(std::string_view data) = 0;
    [[nodiscard]] virtual blob_id_type duplicate_data(blob_id_type reference) = 0;
};
}  // namespace limestone::api
