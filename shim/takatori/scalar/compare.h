// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/scalar/comparison_operator.h>
#include <takatori/scalar/expression.h>
namespace takatori::scalar {
class compare : public expression {
public:
    using operator_kind_type = comparison_operator;
    compare(comparison_operator op, expression_ptr l, expression_ptr r) : op_(op), l_(std::move(l)), r_(std::move(r)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::compare; }
    [[nodiscard]] comparison_operator operator_kind() const noexcept { return op_; }
    [[nodiscard]] expression const& left() const noexcept { return *l_; }
    [[nodiscard]] expression const& right() const noexcept { return *r_; }
private:
    comparison_operator op_;
    expression_ptr l_, r_;
};
}  // namespace takatori::scalar
