// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <string>
#include <utility>
namespace yugawara::schema {
class configurable_provider;
class catalog {
public:
    explicit catalog(std::string n) : n_(std::move(n)) {}
    void schema_provider(std::shared_ptr<configurable_provider> p) { p_ = std::move(p); }
    [[nodiscard]] std::string_view name() const noexcept { return n_; }
private:
    std::string n_;
    std::shared_ptr<configurable_provider> p_{};
};
}  // namespace yugawara::schema
