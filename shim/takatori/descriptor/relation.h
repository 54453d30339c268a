// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <memory>
#include <utility>
#include <takatori/descriptor/element.h>
namespace takatori::descriptor {
class relation {
public:
    relation() = default;
    explicit relation(std::shared_ptr<void const> e, bool exchange = false) : e_(std::move(e)), x_(exchange) {}
    [[nodiscard]] std::shared_ptr<void const> const& entity() const noexcept { return e_; }
    [[nodiscard]] bool is_exchange() const noexcept { return x_; }
    friend bool operator==(relation const& a, relation const& b) noexcept { return a.e_ == b.e_; }
    friend bool operator!=(relation const& a, relation const& b) noexcept { return a.e_ != b.e_; }
private:
    std::shared_ptr<void const> e_{};
    bool x_{};
};
}  // namespace takatori::descriptor
template <>
struct std::hash<takatori::descriptor::relation> {
    std::size_t operator()(takatori::descriptor::relation const& v) const noexcept { return std::hash<void const*>{}(v.entity().get()); }
};
