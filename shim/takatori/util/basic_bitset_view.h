#pragma once
#include <cstddef>
#include <type_traits>
#include "basic_buffer_view.h"
namespace takatori::util {
// bit i is bit (i % 8) of block i / 8; iteration is over the blocks
template <class T>
class basic_bitset_view {
public:
    using block_type = T;
    using size_type = std::size_t;
    template <class V>
    class block_iterator {
    public:
        explicit block_iterator(V* p) noexcept : p_(p) {}
        V& operator*() const noexcept { return *p_; }
        block_iterator& operator++() noexcept { ++p_; return *this; }
        block_iterator& operator--() noexcept { --p_; return *this; }
        bool operator==(block_iterator o) const noexcept { return p_ == o.p_; }
        bool operator!=(block_iterator o) const noexcept { return p_ != o.p_; }

    private:
        V* p_;
    };
    using iterator = block_iterator<T>;
    class reference {
    public:
        reference(T* p, unsigned b) noexcept : p_(p), b_(b) {}
        operator bool() const noexcept { return (static_cast<unsigned char>(*p_) >> b_ & 1U) != 0; }
        reference& operator=(bool v) noexcept {
            auto u = static_cast<unsigned char>(*p_);
            u = v ? u | (1U << b_) : u & ~(1U << b_);
            *p_ = static_cast<char>(u);
            return *this;
        }

    private:
        T* p_;
        unsigned b_;
    };
    constexpr basic_bitset_view() noexcept = default;
    constexpr basic_bitset_view(T* p, std::size_t n) noexcept : p_(p), n_(n) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>>
    constexpr basic_bitset_view(basic_bitset_view<U> o) noexcept : p_(o.block_data()), n_(o.size()) {}
    [[nodiscard]] bool test(std::size_t i) const { return (static_cast<unsigned char>(p_[i / 8]) >> (i % 8) & 1U) != 0; }
    [[nodiscard]] bool operator[](std::size_t i) const { return test(i); }
    reference operator[](std::size_t i) { return reference{p_ + i / 8, static_cast<unsigned>(i % 8)}; }
    [[nodiscard]] constexpr std::size_t size() const noexcept { return n_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return n_ == 0; }
    [[nodiscard]] constexpr T* block_data() const noexcept { return p_; }
    [[nodiscard]] constexpr std::size_t block_size() const noexcept { return (n_ + 7) / 8; }
    [[nodiscard]] iterator begin() const noexcept { return iterator{p_}; }
    [[nodiscard]] iterator end() const noexcept { return iterator{p_ + block_size()}; }

private:
    T* p_{};
    std::size_t n_{};
};
}  // namespace takatori::util
