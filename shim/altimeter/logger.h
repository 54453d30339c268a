// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <limits>
#include <mutex>
#include <string_view>
#include <vector>
#include <altimeter/log_item.h>
namespace altimeter {
struct logger {
    static inline std::mutex mutex{};
    static inline std::vector<log_item> records{};
    static inline std::uint32_t threshold = 0;
    static bool is_log_on(std::string_view category, std::uint32_t level) { return category == "event" && level <= threshold; }
    static void log(log_item const& i) { std::lock_guard<std::mutex> l{mutex}; records.push_back(i); }
};
}  // namespace altimeter
