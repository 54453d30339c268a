// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/scalar/expression.h>
namespace takatori::scalar {
class coalesce : public expression {
public:
    explicit coalesce(std::vector<expression_ptr> a) : a_(std::move(a)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::coalesce; }
    [[nodiscard]] owned_list<expression> const& alternatives() const noexcept { return a_; }
private:
    owned_list<expression> a_;
};
}  // namespace takatori::scalar
