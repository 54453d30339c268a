// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <yugawara/analyzer/variable_resolution_kind.h>
namespace yugawara::analyzer {
class variable_resolution {
public:
    constexpr variable_resolution(variable_resolution_kind k = variable_resolution_kind::unresolved) : k_(k) {}
    [[nodiscard]] constexpr variable_resolution_kind kind() const noexcept { return k_; }
    explicit constexpr operator bool() const noexcept { return k_ != variable_resolution_kind::unresolved; }
private:
    variable_resolution_kind k_;
};
}  // namespace yugawara::analyzer
