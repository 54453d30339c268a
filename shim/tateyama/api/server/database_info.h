// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <string_view>
#include <unistd.h>
namespace tateyama::api::server {
class database_info {
public:
    virtual ~database_info() = default;
    [[nodiscard]] virtual pid_t process_id() const noexcept { return 1; }
    [[nodiscard]] virtual std::string_view name() const noexcept { return "fake"; }
    [[nodiscard]] virtual std::string_view instance_id() const noexcept { return "fake"; }
};
}  // namespace tateyama::api::server
