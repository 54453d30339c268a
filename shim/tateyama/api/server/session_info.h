// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <optional>
#include <string>
#include <string_view>
namespace tateyama::api::server {
enum class user_type { administrator, standard };
class session_info {
public:
    virtual ~session_info() = default;
    [[nodiscard]] virtual std::size_t id() const noexcept { return id_; }
    [[nodiscard]] virtual std::string_view label() const noexcept { return label_; }
    [[nodiscard]] virtual std::string_view application_name() const noexcept { return application_; }
    [[nodiscard]] virtual std::string_view connection_type_name() const noexcept { return {}; }
    [[nodiscard]] virtual std::string_view connection_information() const noexcept { return remote_; }
    [[nodiscard]] virtual std::optional<std::string_view> username() const noexcept { return name_ ? std::optional<std::string_view>{*name_} : std::nullopt; }
    [[nodiscard]] virtual server::user_type user_type() const noexcept { return type_; }
    std::size_t id_ = 0;
    std::string label_{}, application_{}, remote_{};
    std::optional<std::string> name_{};
    server::user_type type_{server::user_type::administrator};
};
}  // namespace tateyama::api::server
