// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <map>
#include <memory>
#include <string_view>
#include <cstdint>
#include <string>
#include <utility>
#include <variant>
#include <tateyama/api/server/blob_info.h>
#include <tateyama/api/server/database_info.h>
#include <tateyama/api/server/session_element.h>
#include <tateyama/api/server/session_info.h>
namespace tateyama::api::server {
class session_store {
public:
    bool put(std::size_t id, std::shared_ptr<session_element> e) { return elements_.emplace(id, std::move(e)).second; }
    std::map<std::size_t, std::shared_ptr<session_element>> elements_{};
};
class session_variable_set {
public:
    using value_type = std::variant<std::monostate, bool, std::int64_t, std::uint64_t, std::string>;
    [[nodiscard]] value_type get(std::string_view n) const { auto it = values_.find(std::string{n}); return it == values_.end() ? value_type{} : it->second; }
    std::map<std::string, value_type> values_{};
};
class request {
public:
    virtual ~request() = default;
    [[nodiscard]] virtual std::size_t session_id() const { return session_.id(); }
    [[nodiscard]] virtual std::size_t service_id() const { return 0; }
    [[nodiscard]] virtual std::size_t local_id() const { return 0; }
    [[nodiscard]] virtual std::string_view payload() const { return {}; }
    [[nodiscard]] virtual server::session_info const& session_info() const noexcept { return session_; }
    [[nodiscard]] virtual server::database_info const& database_info() const noexcept { return database_; }
    [[nodiscard]] virtual bool has_blob(std::string_view) const noexcept { return false; }
    [[nodiscard]] virtual blob_info const& get_blob(std::string_view) const { std::abort(); }
    [[nodiscard]] virtual server::session_store& session_store() { return store_; }
    [[nodiscard]] virtual server::session_variable_set& session_variable_set() { return variables_; }
    server::session_variable_set variables_{};
    server::session_info session_{};
    server::database_info database_{};
    server::session_store store_{};
};
}  // namespace tateyama::api::server
