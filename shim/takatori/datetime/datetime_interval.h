#pragma once
#include "date_interval.h"
#include "time_interval.h"
namespace takatori::datetime {
class datetime_interval {
public:
    constexpr datetime_interval() noexcept = default;
    constexpr explicit datetime_interval(date_interval d, time_interval t = time_interval{}) noexcept : d_(d), t_(t) {}
    [[nodiscard]] constexpr date_interval const& date() const noexcept { return d_; }
    [[nodiscard]] constexpr time_interval const& time() const noexcept { return t_; }
    friend constexpr bool operator==(datetime_interval a, datetime_interval b) noexcept { return a.d_ == b.d_ && a.t_ == b.t_; }
    friend constexpr bool operator!=(datetime_interval a, datetime_interval b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, datetime_interval const& v) { return o << v.d_ << "T" << v.t_; }

private:
    date_interval d_{};
    time_interval t_{};
};
}  // namespace takatori::datetime
