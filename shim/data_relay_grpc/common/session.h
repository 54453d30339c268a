// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <filesystem>
#include <optional>
namespace data_relay_grpc::common {
// defined by the harness that needs it
class blob_session {
public:
    using session_id_type = std::uint64_t;
    using blob_id_type = std::uint64_t;
    using blob_tag_type = std::uint64_t;
    using blob_path_type = std::filesystem::path;
    virtual ~blob_session() = default;
    [[nodiscard]] virtual session_id_type session_id() const noexcept = 0;
    virtual void dispose() = 0;
    [[nodiscard]] virtual std::optional<blob_path_type> find(blob_id_type id) const = 0;
    [[nodiscard]] virtual blob_tag_type compute_tag(blob_id_type id) const = 0;
    virtual blob_id_type add(blob_path_type path) = 0;
};
}  // namespace data_relay_grpc::common
