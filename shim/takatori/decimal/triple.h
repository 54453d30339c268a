#pragma once
#include <cstdint>
#include <functional>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <utility>
#include <decimal.hh>
namespace takatori::decimal {
// sign * coefficient * 10^exponent with a 128 bit coefficient; the sign of zero is 0
class triple {
public:
    using sign_type = std::int32_t;
    using coefficient_type = std::uint64_t;
    using exponent_type = std::int32_t;
    static constexpr std::size_t max_decimal_digits = 38;
    constexpr triple() noexcept = default;
    constexpr triple(std::int64_t sign, coefficient_type high, coefficient_type low, exponent_type exponent) noexcept
        : hi_(high), lo_(low), exp_(exponent), sign_((high == 0 && low == 0) ? 0 : (sign > 0 ? 1 : (sign < 0 ? -1 : 0))) {}
    constexpr triple(std::int64_t coefficient, exponent_type exponent = 0) noexcept
        : lo_(coefficient < 0 ? ~static_cast<std::uint64_t>(coefficient) + 1 : static_cast<std::uint64_t>(coefficient)),
          exp_(exponent), sign_(coefficient > 0 ? 1 : (coefficient < 0 ? -1 : 0)) {}
    explicit triple(::decimal::Decimal const& v) {
        if (!v.isfinite()) throw std::invalid_argument("decimal value must be finite");
        auto c = v.coefficient_();
        if (c >> 128 != 0) throw std::out_of_range("decimal coefficient is out of range");
        hi_ = static_cast<std::uint64_t>(c >> 64);
        lo_ = static_cast<std::uint64_t>(c & std::numeric_limits<std::uint64_t>::max());
        if (v.exponent() < std::numeric_limits<std::int32_t>::min() || v.exponent() > std::numeric_limits<std::int32_t>::max()) throw std::out_of_range("decimal exponent is out of range");
        exp_ = static_cast<exponent_type>(v.exponent());
        sign_ = (hi_ == 0 && lo_ == 0) ? 0 : v.sign();
    }
    explicit triple(::mpd_uint128_triple_t const& v) {
        if (v.tag != MPD_TRIPLE_NORMAL) throw std::invalid_argument("decimal value must be a 128 bit finite value");
        if (v.exp < std::numeric_limits<std::int32_t>::min() || v.exp > std::numeric_limits<std::int32_t>::max()) throw std::out_of_range("decimal exponent is out of range");
        hi_ = v.hi;
        lo_ = v.lo;
        exp_ = static_cast<exponent_type>(v.exp);
        sign_ = (hi_ == 0 && lo_ == 0) ? 0 : (v.sign != 0 ? -1 : 1);
    }
    [[nodiscard]] constexpr bool positive() const noexcept { return sign_ >= 0; }
    [[nodiscard]] constexpr bool negative() const noexcept { return sign_ < 0; }
    [[nodiscard]] constexpr sign_type sign() const noexcept { return sign_; }
    [[nodiscard]] constexpr std::pair<coefficient_type, coefficient_type> coefficient() const noexcept { return {hi_, lo_}; }
    [[nodiscard]] constexpr coefficient_type coefficient_high() const noexcept { return hi_; }
    [[nodiscard]] constexpr coefficient_type coefficient_low() const noexcept { return lo_; }
    [[nodiscard]] constexpr exponent_type exponent() const noexcept { return exp_; }
    [[nodiscard]] operator ::decimal::Decimal() const { return ::decimal::Decimal::raw_(sign_ < 0, hi_, lo_, exp_); }
    friend constexpr bool operator==(triple const& a, triple const& b) noexcept {
        return a.sign_ == b.sign_ && a.hi_ == b.hi_ && a.lo_ == b.lo_ && a.exp_ == b.exp_;
    }
    friend constexpr bool operator!=(triple const& a, triple const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, triple const& v) {
        if (v.hi_ == 0) {
            if (v.sign_ < 0) o << "-";
            return o << "triple{" << v.lo_ << "E" << v.exp_ << "}";
        }
        return o << "triple{sign=" << v.sign_ << ", hi=" << v.hi_ << ", lo=" << v.lo_ << ", exp=" << v.exp_ << "}";
    }
    friend std::string to_string(triple const& v) { return static_cast<::decimal::Decimal>(v).to_sci(); }

private:
    coefficient_type hi_{};
    coefficient_type lo_{};
    exponent_type exp_{};
    sign_type sign_{};
};
}  // namespace takatori::decimal
template <>
struct std::hash<takatori::decimal::triple> {
    std::size_t operator()(takatori::decimal::triple const& v) const noexcept {
        return v.coefficient_low() * 31 + v.coefficient_high() * 7 + static_cast<std::size_t>(v.exponent()) + static_cast<std::size_t>(v.sign());
    }
};
