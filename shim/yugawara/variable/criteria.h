// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <yugawara/variable/nullity.h>
namespace yugawara::variable {
class criteria {
public:
    criteria(variable::nullity n = variable::nullity{true}) : n_(n) {}
    [[nodiscard]] variable::nullity const& nullity() const noexcept { return n_; }
private:
    variable::nullity n_;
};
}  // namespace yugawara::variable
