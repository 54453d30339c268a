#pragma once
#include <cstddef>
#include <ostream>
#include <stdexcept>
#include <type_traits>
namespace takatori::util {
template <class T>
class optional_ptr {
public:
    using value_type = T;
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {}
    constexpr explicit optional_ptr(T* p) noexcept : p_(p) {}
    constexpr optional_ptr(T& r) noexcept : p_(&r) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr optional_ptr(optional_ptr<U> o) noexcept : p_(o.get()) {}
    [[nodiscard]] constexpr T* get() const noexcept { return p_; }
    template <class U = T>
    [[nodiscard]] constexpr std::add_lvalue_reference_t<U> operator*() const { return *p_; }
    constexpr T* operator->() const { return p_; }
    constexpr explicit operator bool() const noexcept { return p_ != nullptr; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return p_ != nullptr; }
    [[nodiscard]] constexpr bool empty() const noexcept { return p_ == nullptr; }
    [[nodiscard]] T& value() const {
        if (!p_) throw std::runtime_error("null pointer exception");
        return *p_;
    }
    void reset() noexcept { p_ = nullptr; }
    void reset(T& r) noexcept { p_ = &r; }
    friend constexpr bool operator==(optional_ptr a, optional_ptr b) noexcept { return a.p_ == b.p_; }
    friend constexpr bool operator!=(optional_ptr a, optional_ptr b) noexcept { return a.p_ != b.p_; }
    friend constexpr bool operator==(optional_ptr a, std::nullptr_t) noexcept { return a.p_ == nullptr; }
    friend constexpr bool operator!=(optional_ptr a, std::nullptr_t) noexcept { return a.p_ != nullptr; }

private:
    T* p_{};
};
}  // namespace takatori::util
