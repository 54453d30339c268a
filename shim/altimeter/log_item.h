// Stand-in written for /verif: only what jogasaki's sources use. The items are kept in memory for the checks.
#pragma once
#include <cstdint>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace altimeter {
class log_item {
public:
    struct entry {
        std::string key{}, text{};
        std::int64_t number{};
        bool is_text{};
        friend std::ostream& operator<<(std::ostream& out, entry const& e) { out << e.key << ":"; if (e.is_text) return out << e.text; return out << e.number; }
    };
    void category(std::string_view v) { category_ = v; }
    [[nodiscard]] std::string_view category() const { return category_; }
    void type(std::string_view v) { type_ = v; }
    [[nodiscard]] std::string_view type() const { return type_; }
    void level(std::uint32_t v) { level_ = v; }
    [[nodiscard]] std::uint32_t level() const { return level_; }
    template <class T> void add(std::string_view key, T const& v) {
        entry e;
        e.key = key;
        if constexpr (std::is_integral_v<T>) e.number = static_cast<std::int64_t>(v);
        else { e.text = std::string{v}; e.is_text = true; }
        items_.push_back(std::move(e));
    }
    [[nodiscard]] std::vector<entry> const& items() const { return items_; }
private:
    std::string category_{}, type_{};
    std::uint32_t level_{};
    std::vector<entry> items_{};
};
}  // namespace altimeter
