#pragma once
#include <cstdint>
#include <chrono>
#include <functional>
#include <iomanip>
#include <ostream>
namespace takatori::datetime {
// proleptic Gregorian calendar day
class date {
public:
    using difference_type = std::int64_t;
    constexpr date() noexcept = default;
    constexpr explicit date(difference_type days) noexcept : days_(days) {}
    constexpr date(std::int32_t y, std::uint32_t m, std::uint32_t d) noexcept : days_(from_civil(y, m, d)) {}
    [[nodiscard]] constexpr difference_type days_since_epoch() const noexcept { return days_; }
    [[nodiscard]] constexpr std::int32_t year() const noexcept { return civil().y; }
    [[nodiscard]] constexpr std::uint32_t month() const noexcept { return civil().m; }
    [[nodiscard]] constexpr std::uint32_t day() const noexcept { return civil().d; }
    constexpr date& operator+=(difference_type o) noexcept { days_ += o; return *this; }
    constexpr date& operator-=(difference_type o) noexcept { days_ -= o; return *this; }
    friend constexpr date operator+(date a, difference_type o) noexcept { return date{a.days_ + o}; }
    friend constexpr date operator-(date a, difference_type o) noexcept { return date{a.days_ - o}; }
    friend constexpr difference_type operator-(date a, date b) noexcept { return a.days_ - b.days_; }
    friend constexpr bool operator==(date a, date b) noexcept { return a.days_ == b.days_; }
    friend constexpr bool operator!=(date a, date b) noexcept { return a.days_ != b.days_; }
    friend constexpr bool operator<(date a, date b) noexcept { return a.days_ < b.days_; }
    friend constexpr bool operator>(date a, date b) noexcept { return a.days_ > b.days_; }
    friend constexpr bool operator<=(date a, date b) noexcept { return a.days_ <= b.days_; }
    friend constexpr bool operator>=(date a, date b) noexcept { return a.days_ >= b.days_; }
    friend std::ostream& operator<<(std::ostream& o, date v) {
        auto c = v.civil();
        auto f = o.fill('0');
        o << std::setw(4) << c.y << '-' << std::setw(2) << c.m << '-' << std::setw(2) << c.d;
        o.fill(f);
        return o;
    }

private:
    struct ymd { std::int32_t y; std::uint32_t m; std::uint32_t d; };
    difference_type days_{};
    static constexpr difference_type from_civil(std::int64_t y, std::uint32_t m, std::uint32_t d) noexcept {
        y -= m <= 2 ? 1 : 0;
        std::int64_t era = (y >= 0 ? y : y - 399) / 400;
        auto yoe = static_cast<std::uint64_t>(y - era * 400);
        std::uint64_t doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1;
        std::uint64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        return era * 146097 + static_cast<std::int64_t>(doe) - 719468;
    }
    [[nodiscard]] constexpr ymd civil() const noexcept {
        std::int64_t z = days_ + 719468;
        std::int64_t era = (z >= 0 ? z : z - 146096) / 146097;
        auto doe = static_cast<std::uint64_t>(z - era * 146097);
        std::uint64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        std::int64_t y = static_cast<std::int64_t>(yoe) + era * 400;
        std::uint64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        std::uint64_t mp = (5 * doy + 2) / 153;
        auto d = static_cast<std::uint32_t>(doy - (153 * mp + 2) / 5 + 1);
        auto m = static_cast<std::uint32_t>(mp < 10 ? mp + 3 : mp - 9);
        return {static_cast<std::int32_t>(y + (m <= 2 ? 1 : 0)), m, d};
    }
};
}  // namespace takatori::datetime
template <>
struct std::hash<takatori::datetime::date> {
    std::size_t operator()(takatori::datetime::date v) const noexcept { return std::hash<std::int64_t>{}(v.days_since_epoch()); }
};
