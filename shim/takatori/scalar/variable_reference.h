// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/descriptor/variable.h>
#include <takatori/scalar/expression.h>
namespace takatori::scalar {
class variable_reference : public expression {
public:
    explicit variable_reference(descriptor::variable v) : v_(std::move(v)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::variable_reference; }
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
private:
    descriptor::variable v_;
};
}  // namespace takatori::scalar
