// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
namespace sharksfin {
class TransactionState {
public:
    enum class StateKind : std::int64_t { UNKNOWN, WAITING_START, STARTED, WAITING_CC_COMMIT, ABORTED, WAITING_DURABLE, DURABLE };
    TransactionState() = default;
    explicit TransactionState(StateKind k) : k_(k) {}
    [[nodiscard]] StateKind state_kind() const noexcept { return k_; }
private:
    StateKind k_{StateKind::UNKNOWN};
};
}  // namespace sharksfin
