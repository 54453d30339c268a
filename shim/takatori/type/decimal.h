// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <optional>
#include <takatori/type/data.h>
namespace takatori::type {
class decimal : public data {
public:
    using size_type = std::size_t;
    static constexpr type_kind tag = type_kind::decimal;
    decimal() = default;
    decimal(std::optional<size_type> p, std::optional<size_type> s = size_type{0}) noexcept : p_(p), s_(s) {}
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] std::optional<size_type> precision() const noexcept { return p_; }
    [[nodiscard]] std::optional<size_type> scale() const noexcept { return s_; }
    [[nodiscard]] std::unique_ptr<data> clone() const override { return std::make_unique<decimal>(*this); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override {
        if (o.kind() != tag) return false;
        auto& d = static_cast<decimal const&>(o);
        return d.p_ == p_ && d.s_ == s_;
    }
private:
    std::optional<size_type> p_{};
    std::optional<size_type> s_{};
};
}  // namespace takatori::type
