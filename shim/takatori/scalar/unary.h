// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/scalar/expression.h>
#include <takatori/scalar/unary_operator.h>
namespace takatori::scalar {
class unary : public expression {
public:
    using operator_kind_type = unary_operator;
    unary(unary_operator op, expression_ptr e) : op_(op), e_(std::move(e)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::unary; }
    [[nodiscard]] unary_operator operator_kind() const noexcept { return op_; }
    [[nodiscard]] expression const& operand() const noexcept { return *e_; }
private:
    unary_operator op_;
    expression_ptr e_;
};
}  // namespace takatori::scalar
