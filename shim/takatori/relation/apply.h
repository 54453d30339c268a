// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
#include <cstddef>
#include <takatori/descriptor/function.h>
#include <takatori/relation/apply_kind.h>
namespace takatori::relation::details {
class apply_column {
public:
    apply_column(std::size_t p, descriptor::variable v) : p_(p), v_(std::move(v)) {}
    [[nodiscard]] std::size_t position() const noexcept { return p_; }
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
private:
    std::size_t p_;
    descriptor::variable v_;
};
}  // namespace takatori::relation::details
namespace takatori::relation {
class apply : public expression {
public:
    using column = details::apply_column;
    apply(apply_kind k, descriptor::function f, std::vector<scalar::expression_ptr> a, std::vector<column> c)
        : expression(1, 1), k_(k), f_(std::move(f)), a_(std::move(a)), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::apply; }
    [[nodiscard]] apply_kind operator_kind() const noexcept { return k_; }
    [[nodiscard]] descriptor::function const& function() const noexcept { return f_; }
    [[nodiscard]] scalar::owned_list<scalar::expression> const& arguments() const noexcept { return a_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    apply_kind k_;
    descriptor::function f_;
    scalar::owned_list<scalar::expression> a_;
    std::vector<column> c_;
};
}  // namespace takatori::relation
