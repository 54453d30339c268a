// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace takatori::statement::details {
class table_privilege_action {
public:
    enum class action_kind_type { control, select, insert, update, delete_ };
    table_privilege_action(action_kind_type k) : k_(k) {}
    [[nodiscard]] action_kind_type action_kind() const noexcept { return k_; }
private:
    action_kind_type k_;
};
}  // namespace takatori::statement::details
