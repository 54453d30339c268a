// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <yugawara/storage/provider.h>
namespace yugawara::variable { class provider; }
namespace yugawara::schema {
class declaration {
public:
    using definition_id_type = std::uint64_t;
    declaration(std::optional<definition_id_type> id, std::string n, std::shared_ptr<storage::provider const> s, std::shared_ptr<variable::provider const> v, std::shared_ptr<void const> f,
        std::shared_ptr<void const> a) : id_(id), n_(std::move(n)), s_(std::move(s)), v_(std::move(v)), f_(std::move(f)), a_(std::move(a)) {}
    [[nodiscard]] std::string_view name() const noexcept { return n_; }
    [[nodiscard]] std::shared_ptr<storage::provider const> const& shared_storage_provider() const noexcept { return s_; }
private:
    std::optional<definition_id_type> id_;
    std::string n_;
    std::shared_ptr<storage::provider const> s_;
    std::shared_ptr<variable::provider const> v_;
    std::shared_ptr<void const> f_, a_;
};
}  // namespace yugawara::schema
