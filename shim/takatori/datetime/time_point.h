#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <ostream>
#include "date.h"
#include "time_of_day.h"
namespace takatori::datetime {
class time_point {
public:
    using offset_type = std::chrono::duration<std::int64_t>;
    using subsecond_unit = std::chrono::duration<std::uint32_t, std::nano>;
    using difference_type = std::chrono::duration<std::int64_t, std::nano>;
    constexpr time_point() noexcept = default;
    constexpr explicit time_point(offset_type s, std::chrono::nanoseconds sub = std::chrono::nanoseconds{}) noexcept
        : s_(s), n_(static_cast<std::uint32_t>(sub.count())) {}
    constexpr explicit time_point(date d, time_of_day t = time_of_day{}) noexcept
        : s_(d.days_since_epoch() * 86400 + static_cast<std::int64_t>(t.time_since_epoch().count() / 1000000000ULL)),
          n_(static_cast<std::uint32_t>(t.time_since_epoch().count() % 1000000000ULL)) {}
    template <class D>
    constexpr explicit time_point(std::chrono::time_point<std::chrono::system_clock, D> tp) noexcept {
        auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count();
        std::int64_t s = ns / 1000000000;
        std::int64_t r = ns % 1000000000;
        if (r < 0) { r += 1000000000; --s; }
        s_ = offset_type{s};
        n_ = subsecond_unit{static_cast<std::uint32_t>(r)};
    }
    static time_point now() noexcept { return time_point{std::chrono::system_clock::now()}; }
    [[nodiscard]] constexpr offset_type seconds_since_epoch() const noexcept { return s_; }
    [[nodiscard]] constexpr subsecond_unit subsecond() const noexcept { return n_; }
    [[nodiscard]] constexpr class date date() const noexcept {
        auto v = s_.count();
        auto q = v / 86400;
        if (v % 86400 < 0) --q;
        return datetime::date{q};
    }
    [[nodiscard]] constexpr time_of_day time() const noexcept {
        auto v = s_.count() % 86400;
        if (v < 0) v += 86400;
        return time_of_day{time_of_day::time_unit{static_cast<std::uint64_t>(v) * 1000000000ULL + n_.count()}};
    }
    template <class R, class P>
    constexpr time_point& operator+=(std::chrono::duration<R, P> o) noexcept {
        auto secs = std::chrono::duration_cast<offset_type>(o);
        auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(o - secs).count() + static_cast<std::int64_t>(n_.count());
        auto sec = s_.count() + secs.count();
        if (ns < 0) { ns += 1000000000; --sec; }
        if (ns >= 1000000000) { ns -= 1000000000; ++sec; }
        s_ = offset_type{sec};
        n_ = subsecond_unit{static_cast<std::uint32_t>(ns)};
        return *this;
    }
    template <class R, class P>
    constexpr time_point& operator-=(std::chrono::duration<R, P> o) noexcept { return *this += -std::chrono::duration<std::int64_t, P>(o); }
    template <class R, class P>
    friend constexpr time_point operator+(time_point a, std::chrono::duration<R, P> o) noexcept { a += o; return a; }
    template <class R, class P>
    friend constexpr time_point operator-(time_point a, std::chrono::duration<R, P> o) noexcept { a -= o; return a; }
    friend constexpr bool operator==(time_point a, time_point b) noexcept { return a.s_ == b.s_ && a.n_ == b.n_; }
    friend constexpr bool operator!=(time_point a, time_point b) noexcept { return !(a == b); }
    friend constexpr bool operator<(time_point a, time_point b) noexcept { return a.s_ < b.s_ || (a.s_ == b.s_ && a.n_ < b.n_); }
    friend constexpr bool operator>(time_point a, time_point b) noexcept { return b < a; }
    friend constexpr bool operator<=(time_point a, time_point b) noexcept { return !(b < a); }
    friend constexpr bool operator>=(time_point a, time_point b) noexcept { return !(a < b); }
    friend std::ostream& operator<<(std::ostream& o, time_point v) { return o << v.date() << 'T' << v.time() << 'Z'; }

private:
    offset_type s_{};
    subsecond_unit n_{};
};
}  // namespace takatori::datetime
template <>
struct std::hash<takatori::datetime::time_point> {
    std::size_t operator()(takatori::datetime::time_point v) const noexcept {
        return std::hash<std::int64_t>{}(v.seconds_since_epoch().count()) * 31 + v.subsecond().count();
    }
};
