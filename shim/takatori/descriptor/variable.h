// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <memory>
#include <ostream>
#include <takatori/descriptor/element.h>
namespace takatori::descriptor {
class variable {
public:
    using entity_type = int;
    using reference_type = entity_type const*;
    variable() = default;
    explicit variable(std::shared_ptr<entity_type const> e) : e_(std::move(e)) {}
    [[nodiscard]] std::shared_ptr<entity_type const> const& shared_entity() const noexcept { return e_; }
    [[nodiscard]] reference_type reference() const noexcept { return e_.get(); }
    friend bool operator==(variable const& a, variable const& b) noexcept { return a.e_ == b.e_; }
    friend bool operator!=(variable const& a, variable const& b) noexcept { return a.e_ != b.e_; }
    friend std::ostream& operator<<(std::ostream& o, variable const& v) { return o << "variable(" << v.e_.get() << ")"; }
private:
    std::shared_ptr<entity_type const> e_{};
};
}  // namespace takatori::descriptor
template <>
struct std::hash<takatori::descriptor::variable> {
    std::size_t operator()(takatori::descriptor::variable const& v) const noexcept { return std::hash<void const*>{}(v.shared_entity().get()); }
};
