// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <chrono>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
namespace takatori::datetime {
struct date_info { std::uint32_t year{}, month{}, day{}; };
struct time_info { std::uint32_t hour{}, minute{}, second{}; std::chrono::nanoseconds subsecond{}; };
struct zone_offset_info { bool plus{true}; std::uint32_t hour{}, minute{}; };
struct datetime_info { date_info date{}; time_info time{}; std::optional<zone_offset_info> offset{}; };
template <class T>
class conversion_result {
public:
    conversion_result(T v) : v_(std::move(v)) {}
    conversion_result(std::string e) : e_(std::move(e)) {}
    [[nodiscard]] bool is_error() const noexcept { return !v_; }
    [[nodiscard]] explicit operator bool() const noexcept { return v_.has_value(); }
    [[nodiscard]] T const& value() const { return v_.value(); }
    [[nodiscard]] std::string const& error() const { return e_; }
private:
    std::optional<T> v_{};
    std::string e_{};
};
namespace impl {
struct scanner {
    std::string_view s;
    std::size_t i = 0;
    bool number(std::uint32_t& out, std::size_t most) {
        std::size_t n = 0;
        std::uint64_t v = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9' && n < most) { v = v * 10 + static_cast<std::uint64_t>(s[i] - '0'); ++i; ++n; }
        out = static_cast<std::uint32_t>(v);
        return n > 0 && !(i < s.size() && s[i] >= '0' && s[i] <= '9');
    }
    bool is(char c) { if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
    [[nodiscard]] bool end() const { return i == s.size(); }
    bool date(date_info& d) {
        if (!number(d.year, 9) || !is('-') || !number(d.month, 2) || !is('-') || !number(d.day, 2)) return false;
        if (d.year < 1 || d.month < 1 || d.month > 12 || d.day < 1) return false;
        static constexpr std::uint32_t days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        bool leap = d.year % 4 == 0 && (d.year % 100 != 0 || d.year % 400 == 0);
        return d.day <= days[d.month - 1] + (d.month == 2 && leap ? 1U : 0U);
    }
    bool time(time_info& t) {
        if (!number(t.hour, 2) || !is(':') || !number(t.minute, 2) || !is(':') || !number(t.second, 2)) return false;
        if (t.hour > 23 || t.minute > 59 || t.second > 59) return false;
        if (is('.')) {
            auto b = i;
            std::uint32_t v{};
            if (!number(v, 9)) return false;
            for (auto n = i - b; n < 9; ++n) v *= 10;
            t.subsecond = std::chrono::nanoseconds{v};
        }
        return true;
    }
    bool offset(zone_offset_info& o) {
        if (is('Z') || is('z')) { o = {}; return true; }
        if (is('+')) o.plus = true;
        else if (is('-')) o.plus = false;
        else return false;
        if (!number(o.hour, 2)) return false;
        if (is(':')) { if (!number(o.minute, 2)) return false; }
        return o.hour <= 24 && o.minute <= 59;
    }
};
}  // namespace impl
inline conversion_result<date_info> parse_date(std::string_view s) {
    impl::scanner c{s};
    date_info d;
    if (!c.date(d) || !c.end()) return std::string{"invalid date"};
    return d;
}
inline conversion_result<time_info> parse_time(std::string_view s) {
    impl::scanner c{s};
    time_info d;
    if (!c.time(d) || !c.end()) return std::string{"invalid time"};
    return d;
}
inline conversion_result<zone_offset_info> parse_zone_offset(std::string_view s) {
    impl::scanner c{s};
    zone_offset_info d;
    if (!c.offset(d) || !c.end()) return std::string{"invalid offset"};
    return d;
}
inline conversion_result<datetime_info> parse_datetime(std::string_view s) {
    impl::scanner c{s};
    datetime_info d;
    if (!c.date(d.date)) return std::string{"invalid date"};
    if (c.end()) return d;
    if (!c.is('T') && !c.is('t') && !c.is(' ')) return std::string{"invalid datetime"};
    if (!c.time(d.time)) return std::string{"invalid time"};
    if (!c.end()) {
        zone_offset_info o;
        if (!c.offset(o)) return std::string{"invalid offset"};
        d.offset = o;
    }
    if (!c.end()) return std::string{"invalid datetime"};
    return d;
}
}  // namespace takatori::datetime
