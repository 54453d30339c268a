// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/scalar/expression.h>
namespace takatori::scalar {
enum class match_operator { like, similar };
class match : public expression {
public:
    using operator_kind_type = match_operator;
    match(match_operator op, expression_ptr i, expression_ptr p, expression_ptr e) : op_(op), i_(std::move(i)), p_(std::move(p)), e_(std::move(e)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::match; }
    [[nodiscard]] match_operator operator_kind() const noexcept { return op_; }
    [[nodiscard]] expression const& input() const noexcept { return *i_; }
    [[nodiscard]] expression const& pattern() const noexcept { return *p_; }
    [[nodiscard]] expression const& escape() const noexcept { return *e_; }
private:
    match_operator op_;
    expression_ptr i_, p_, e_;
};
}  // namespace takatori::scalar
