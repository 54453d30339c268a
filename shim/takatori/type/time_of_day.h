// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/type/data.h>
#include <takatori/type/with_time_zone.h>
namespace takatori::type {
class time_of_day : public data {
public:
    static constexpr type_kind tag = type_kind::time_of_day;
    time_of_day() = default;
    explicit time_of_day(with_time_zone_t t) noexcept : tz_(t.enabled) {}
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] bool with_time_zone() const noexcept { return tz_; }
    [[nodiscard]] std::unique_ptr<data> clone() const override { return std::make_unique<time_of_day>(*this); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == tag && static_cast<time_of_day const&>(o).tz_ == tz_; }
private:
    bool tz_{false};
};
}  // namespace takatori::type
