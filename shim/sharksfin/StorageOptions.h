// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
namespace sharksfin {
class StorageOptions {
public:
    using storage_id_type = std::uint64_t;
    static constexpr storage_id_type undefined = static_cast<storage_id_type>(-1);
    StorageOptions() = default;
    StorageOptions(storage_id_type id) : id_(id) {}
    [[nodiscard]] storage_id_type storage_id() const noexcept { return id_; }
    StorageOptions& storage_id(storage_id_type id) noexcept { id_ = id; return *this; }
    [[nodiscard]] std::string_view payload() const noexcept { return payload_; }
    StorageOptions& payload(std::string p) noexcept { payload_ = std::move(p); return *this; }
private:
    storage_id_type id_{undefined};
    std::string payload_{};
};
}  // namespace sharksfin
