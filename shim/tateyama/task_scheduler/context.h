// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
namespace tateyama::task_scheduler {
class context {
public:
    explicit context(std::size_t i = 0) noexcept : i_(i) {}
    [[nodiscard]] std::size_t index() const noexcept { return i_; }
    [[nodiscard]] bool task_is_stolen() const noexcept { return false; }
    [[nodiscard]] std::size_t last_steal_from() const noexcept { return 0; }
private:
    std::size_t i_;
};
}  // namespace tateyama::task_scheduler
