// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <string>
#include <utility>
#include <takatori/type/data.h>
#include <yugawara/variable/criteria.h>
namespace yugawara::variable {
class declaration {
public:
    declaration(std::string n, std::shared_ptr<takatori::type::data const> t, variable::criteria c = {}) : n_(std::move(n)), t_(std::move(t)), c_(c), id_(std::make_shared<int>(0)) {}
    declaration(std::string n, takatori::type::data const& t, variable::criteria c = {}) : declaration(std::move(n), std::shared_ptr<takatori::type::data const>{t.clone()}, c) {}
    declaration(std::string_view n, takatori::type::data const& t, variable::criteria c = {}) : declaration(std::string{n}, t, c) {}
    declaration(char const* n, takatori::type::data const& t, variable::criteria c = {}) : declaration(std::string{n}, t, c) {}
    [[nodiscard]] std::string const& name() const noexcept { return n_; }
    [[nodiscard]] takatori::type::data const& type() const noexcept { return *t_; }
    [[nodiscard]] std::shared_ptr<takatori::type::data const> const& shared_type() const noexcept { return t_; }
    [[nodiscard]] variable::criteria const& criteria() const noexcept { return c_; }
    [[nodiscard]] std::shared_ptr<int const> const& identity() const noexcept { return id_; }
private:
    std::string n_;
    std::shared_ptr<takatori::type::data const> t_;
    variable::criteria c_;
    std::shared_ptr<int const> id_;
};
}  // namespace yugawara::variable
