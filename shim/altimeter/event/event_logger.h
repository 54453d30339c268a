// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
namespace altimeter::event {
struct event_logger {
    static inline std::int64_t threshold_ns = 0;
    static bool is_over_stmt_duration_threshold(std::int64_t ns) { return threshold_ns >= 0 && ns >= threshold_ns; }
};
}  // namespace altimeter::event
