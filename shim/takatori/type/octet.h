// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <optional>
#include <takatori/type/data.h>
#include <takatori/type/varying.h>
namespace takatori::type {
class octet : public data {
public:
    using size_type = std::size_t;
    static constexpr type_kind tag = type_kind::octet;
    octet() noexcept : varying_(true) {}
    explicit octet(std::optional<size_type> n) noexcept : varying_(!n), n_(n) {}
    explicit octet(varying_t v, std::optional<size_type> n = {}) noexcept : varying_(v.value), n_(n) {}
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] bool varying() const noexcept { return varying_; }
    [[nodiscard]] std::optional<size_type> length() const noexcept { return n_; }
    [[nodiscard]] std::unique_ptr<data> clone() const override { return std::make_unique<octet>(*this); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override {
        if (o.kind() != tag) return false;
        auto& d = static_cast<octet const&>(o);
        return d.varying_ == varying_ && d.n_ == n_;
    }
private:
    bool varying_;
    std::optional<size_type> n_{};
};
}  // namespace takatori::type
