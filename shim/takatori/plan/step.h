// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <vector>
#include <takatori/plan/step_kind.h>
namespace takatori::plan {
class step {
public:
    step() = default;
    step(step const&) = delete;
    step& operator=(step const&) = delete;
    virtual ~step() = default;
    [[nodiscard]] virtual step_kind kind() const noexcept = 0;
    std::vector<step*> up{}, down{};  // filled by the harness with connect()
};
inline void connect(step& from, step& to) {
    from.down.push_back(&to);
    to.up.push_back(&from);
}
[[nodiscard]] inline bool has_upstream(step const& s) noexcept { return !s.up.empty(); }
inline void enumerate_upstream(step const& s, std::function<void(step const&)> const& f) {
    for (auto* u : s.up) f(*u);
}
inline void enumerate_downstream(step const& s, std::function<void(step const&)> const& f) {
    for (auto* d : s.down) f(*d);
}
}  // namespace takatori::plan
