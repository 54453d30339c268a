// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/scalar/expression.h>
#include <takatori/type/data.h>
#include <takatori/value/data.h>
namespace takatori::scalar {
class immediate : public expression {
public:
    immediate(std::shared_ptr<value::data const> v, std::shared_ptr<type::data const> t) : v_(std::move(v)), t_(std::move(t)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::immediate; }
    [[nodiscard]] value::data const& value() const noexcept { return *v_; }
    [[nodiscard]] type::data const& type() const noexcept { return *t_; }
private:
    std::shared_ptr<value::data const> v_;
    std::shared_ptr<type::data const> t_;
};
}  // namespace takatori::scalar
