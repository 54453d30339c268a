#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <iomanip>
#include <ostream>
namespace takatori::datetime {
class time_of_day {
public:
    using time_unit = std::chrono::duration<std::uint64_t, std::nano>;
    using difference_type = std::chrono::duration<std::int64_t, std::nano>;
    constexpr time_of_day() noexcept = default;
    constexpr explicit time_of_day(time_unit t) noexcept : t_(t) {}
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, time_unit ns = time_unit{}) noexcept
        : t_((static_cast<std::uint64_t>(h) * 3600U + m * 60U + s) * 1000000000ULL + ns.count()) {}
    template <class R, class P>
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, std::chrono::duration<R, P> ns) noexcept
        : time_of_day(h, m, s, std::chrono::duration_cast<time_unit>(ns)) {}
    static constexpr time_of_day max_value() noexcept { return time_of_day{time_unit{86400000000000ULL - 1}}; }
    [[nodiscard]] constexpr time_unit time_since_epoch() const noexcept { return t_; }
    [[nodiscard]] constexpr std::uint32_t hour() const noexcept { return static_cast<std::uint32_t>(t_.count() / 3600000000000ULL); }
    [[nodiscard]] constexpr std::uint32_t minute() const noexcept { return static_cast<std::uint32_t>(t_.count() / 60000000000ULL % 60U); }
    [[nodiscard]] constexpr std::uint32_t second() const noexcept { return static_cast<std::uint32_t>(t_.count() / 1000000000ULL % 60U); }
    [[nodiscard]] constexpr time_unit subsecond() const noexcept { return time_unit{t_.count() % 1000000000ULL}; }
    friend constexpr difference_type operator-(time_of_day a, time_of_day b) noexcept {
        return difference_type{static_cast<std::int64_t>(a.t_.count()) - static_cast<std::int64_t>(b.t_.count())};
    }
    // wraps around within one day
    template <class R, class P>
    constexpr time_of_day& operator+=(std::chrono::duration<R, P> d) noexcept {
        constexpr std::int64_t day = 86400000000000LL;
        auto x = std::chrono::duration_cast<difference_type>(d).count() % day;
        t_ = time_unit{static_cast<std::uint64_t>((static_cast<std::int64_t>(t_.count()) + x + day) % day)};
        return *this;
    }
    template <class R, class P>
    friend constexpr time_of_day operator+(time_of_day a, std::chrono::duration<R, P> d) noexcept { a += d; return a; }
    template <class R, class P>
    friend constexpr time_of_day operator-(time_of_day a, std::chrono::duration<R, P> d) noexcept { a += -d; return a; }
    friend constexpr bool operator==(time_of_day a, time_of_day b) noexcept { return a.t_ == b.t_; }
    friend constexpr bool operator!=(time_of_day a, time_of_day b) noexcept { return a.t_ != b.t_; }
    friend constexpr bool operator<(time_of_day a, time_of_day b) noexcept { return a.t_ < b.t_; }
    friend constexpr bool operator>(time_of_day a, time_of_day b) noexcept { return a.t_ > b.t_; }
    friend constexpr bool operator<=(time_of_day a, time_of_day b) noexcept { return a.t_ <= b.t_; }
    friend constexpr bool operator>=(time_of_day a, time_of_day b) noexcept { return a.t_ >= b.t_; }
    friend std::ostream& operator<<(std::ostream& o, time_of_day v) {
        auto f = o.fill('0');
        o << std::setw(2) << v.hour() << ':' << std::setw(2) << v.minute() << ':' << std::setw(2) << v.second();
        o << '.' << std::setw(9) << v.subsecond().count();
        o.fill(f);
        return o;
    }

private:
    time_unit t_{};
};
}  // namespace takatori::datetime
template <>
struct std::hash<takatori::datetime::time_of_day> {
    std::size_t operator()(takatori::datetime::time_of_day v) const noexcept { return std::hash<std::uint64_t>{}(v.time_since_epoch().count()); }
};
