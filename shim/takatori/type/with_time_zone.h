// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace takatori::type {
struct with_time_zone_t {
    explicit constexpr with_time_zone_t(bool e = true) noexcept : enabled(e) {}
    [[nodiscard]] constexpr with_time_zone_t operator~() const noexcept { return with_time_zone_t{!enabled}; }
    bool enabled;
};
inline constexpr with_time_zone_t with_time_zone{};
}  // namespace takatori::type
