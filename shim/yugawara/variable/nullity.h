// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace yugawara::variable {
class nullity {
public:
    constexpr explicit nullity(bool n) noexcept : n_(n) {}
    [[nodiscard]] constexpr bool nullable() const noexcept { return n_; }
private:
    bool n_;
};
constexpr nullity operator~(nullity n) noexcept { return nullity{!n.nullable()}; }
}  // namespace yugawara::variable
