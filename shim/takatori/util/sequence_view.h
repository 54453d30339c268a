#pragma once
#include <cstddef>
#include <iterator>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>
#include <vector>
namespace takatori::util {
template <class T, class Cursor = T*>
class sequence_view {
public:
    using value_type = T;
    using iterator = T*;
    using const_iterator = T const*;
    using size_type = std::size_t;
    constexpr sequence_view() noexcept = default;
    constexpr sequence_view(T* b, T* e) noexcept : b_(b), e_(e) {}
    constexpr sequence_view(T* b, std::size_t n) noexcept : b_(b), e_(b + n) {}
    constexpr explicit sequence_view(T* e) noexcept : b_(e), e_(e + 1) {}
    template <class C, class = std::enable_if_t<std::is_convertible_v<decltype(std::data(std::declval<C&>())), T*>>>
    constexpr sequence_view(C& c) noexcept : b_(std::data(c)), e_(std::data(c) + std::size(c)) {}
    [[nodiscard]] constexpr iterator begin() const noexcept { return b_; }
    [[nodiscard]] constexpr iterator end() const noexcept { return e_; }
    [[nodiscard]] constexpr std::size_t size() const noexcept { return static_cast<std::size_t>(e_ - b_); }
    [[nodiscard]] constexpr bool empty() const noexcept { return b_ == e_; }
    constexpr T& operator[](std::size_t i) const { return b_[i]; }
    constexpr T& front() const { return *b_; }
    constexpr T& back() const { return *(e_ - 1); }

private:
    T* b_{};
    T* e_{};
};
template <class T>
std::ostream& operator<<(std::ostream& o, sequence_view<T> const& v) {
    o << "[";
    bool c = false;
    for (auto&& e : v) {
        if (c) o << ", ";
        c = true;
        o << e;
    }
    return o << "]";
}
}  // namespace takatori::util
