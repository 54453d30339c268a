// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/scalar/cast_loss_policy.h>
#include <takatori/scalar/expression.h>
#include <takatori/type/data.h>
namespace takatori::scalar {
class cast : public expression {
public:
    cast(std::shared_ptr<type::data const> t, cast_loss_policy p, expression_ptr e) : t_(std::move(t)), p_(p), e_(std::move(e)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::cast; }
    [[nodiscard]] type::data const& type() const noexcept { return *t_; }
    [[nodiscard]] cast_loss_policy loss_policy() const noexcept { return p_; }
    [[nodiscard]] expression const& operand() const noexcept { return *e_; }
private:
    std::shared_ptr<type::data const> t_;
    cast_loss_policy p_;
    expression_ptr e_;
};
}  // namespace takatori::scalar
