// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace tateyama::task_scheduler {
enum class schedule_policy_kind { undefined, suspended_worker };
class schedule_option {
public:
    constexpr schedule_option() = default;
    constexpr explicit schedule_option(schedule_policy_kind p) noexcept : p_(p) {}
    [[nodiscard]] constexpr schedule_policy_kind policy() const noexcept { return p_; }
private:
    schedule_policy_kind p_{};
};
}  // namespace tateyama::task_scheduler
