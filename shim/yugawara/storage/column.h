// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <string>
#include <utility>
#include <takatori/type/data.h>
#include <takatori/util/optional_ptr.h>
#include <yugawara/storage/column_feature.h>
#include <yugawara/storage/column_value.h>
#include <yugawara/variable/criteria.h>
namespace yugawara::storage {
class column {
public:
    using feature_set_type = column_feature_set;
    struct type_arg {
        type_arg(takatori::type::data const& d) : p(d.clone()) {}
        template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, std::remove_const_t<T>>>>
        type_arg(std::shared_ptr<T> d) : p(std::move(d)) {}
        std::shared_ptr<takatori::type::data const> p;
    };
    column(std::string n, type_arg t, variable::criteria c = {}, column_value v = {}, feature_set_type f = {}, std::string d = {})
        : n_(std::move(n)), t_(std::move(t.p)), c_(c), v_(std::move(v)), f_(f), d_(std::move(d)), id_(std::make_shared<int>(0)) {}
    [[nodiscard]] std::string_view simple_name() const noexcept { return n_; }
    [[nodiscard]] takatori::type::data const& type() const noexcept { return *t_; }
    [[nodiscard]] takatori::util::optional_ptr<takatori::type::data const> optional_type() const noexcept { return takatori::util::optional_ptr<takatori::type::data const>{t_.get()}; }
    [[nodiscard]] std::shared_ptr<takatori::type::data const> const& shared_type() const noexcept { return t_; }
    column& type(std::shared_ptr<takatori::type::data const> t) noexcept { t_ = std::move(t); return *this; }
    [[nodiscard]] variable::criteria const& criteria() const noexcept { return c_; }
    [[nodiscard]] column_value const& default_value() const noexcept { return v_; }
    [[nodiscard]] column_value& default_value() noexcept { return v_; }
    [[nodiscard]] feature_set_type const& features() const noexcept { return f_; }
    [[nodiscard]] feature_set_type& features() noexcept { return f_; }
    [[nodiscard]] std::string_view description() const noexcept { return d_; }
    [[nodiscard]] std::shared_ptr<int const> const& identity() const noexcept { return id_; }
    friend bool operator==(column const& a, column const& b) noexcept {
        // as the engine's tests require of the real one: two declarations of the same column are equal, whichever object holds them
        return a.n_ == b.n_ && *a.t_ == *b.t_ && a.c_.nullity().nullable() == b.c_.nullity().nullable();
    }
    friend bool operator!=(column const& a, column const& b) noexcept { return !(a == b); }
private:
    std::string n_;
    std::shared_ptr<takatori::type::data const> t_;
    variable::criteria c_;
    column_value v_;
    feature_set_type f_;
    std::string d_;
    std::shared_ptr<int const> id_;
};
}  // namespace yugawara::storage
