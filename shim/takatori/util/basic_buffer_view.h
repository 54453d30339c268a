#pragma once
#include <cstddef>
#include <iterator>
#include <ostream>
#include <string_view>
#include <type_traits>
namespace takatori::util {
template <class T>
class basic_buffer_view {
public:
    using value_type = T;
    using pointer = T*;
    using reference = T&;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using iterator = T*;
    using const_iterator = std::add_const_t<T>*;
    constexpr basic_buffer_view() noexcept = default;
    constexpr basic_buffer_view(T* p, std::size_t n) noexcept : p_(p), n_(n) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>>
    constexpr basic_buffer_view(basic_buffer_view<U> o) noexcept : p_(o.data()), n_(o.size()) {}
    constexpr reference operator[](std::size_t i) const { return p_[i]; }
    constexpr reference at(std::size_t i) const { return p_[i]; }
    [[nodiscard]] constexpr pointer data() const noexcept { return p_; }
    [[nodiscard]] constexpr std::size_t size() const noexcept { return n_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return n_ == 0; }
    [[nodiscard]] constexpr iterator begin() const noexcept { return p_; }
    [[nodiscard]] constexpr iterator end() const noexcept { return p_ + n_; }
    [[nodiscard]] constexpr const_iterator cbegin() const noexcept { return p_; }
    [[nodiscard]] constexpr const_iterator cend() const noexcept { return p_ + n_; }

private:
    T* p_{};
    std::size_t n_{};
};
}  // namespace takatori::util
