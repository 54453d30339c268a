#pragma once
#include <chrono>
#include <cstdint>
#include <ostream>
namespace takatori::datetime {
class time_interval {
public:
    using time_unit = std::chrono::duration<std::int64_t, std::nano>;
    constexpr time_interval() noexcept = default;
    constexpr explicit time_interval(time_unit t) noexcept : t_(t) {}
    [[nodiscard]] constexpr time_unit offset() const noexcept { return t_; }
    friend constexpr bool operator==(time_interval a, time_interval b) noexcept { return a.t_ == b.t_; }
    friend constexpr bool operator!=(time_interval a, time_interval b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, time_interval v) { return o << v.t_.count() << "ns"; }

private:
    time_unit t_{};
};
}  // namespace takatori::datetime
