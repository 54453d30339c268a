#pragma once
#include <bitset>
#include <initializer_list>
#include <ostream>
#include <type_traits>
#include "enum_tag.h"
namespace takatori::util {
template <class E, E First, E Last>
class enum_set {
    using U = std::underlying_type_t<E>;
    static constexpr std::size_t N = static_cast<std::size_t>(static_cast<long long>(Last) - static_cast<long long>(First) + 1);
    static constexpr std::size_t ix(E e) { return static_cast<std::size_t>(static_cast<long long>(e) - static_cast<long long>(First)); }

public:
    using value_type = E;
    enum_set() = default;
    enum_set(std::initializer_list<E> l) {
        for (auto e : l) insert(e);
    }
    [[nodiscard]] bool contains(E e) const noexcept { return ix(e) < N && bits_.test(ix(e)); }
    [[nodiscard]] bool operator[](E e) const noexcept { return contains(e); }
    enum_set& insert(E e) { bits_.set(ix(e)); return *this; }
    enum_set& insert(enum_set const& o) { bits_ |= o.bits_; return *this; }
    enum_set& erase(E e) { bits_.reset(ix(e)); return *this; }
    enum_set& clear() { bits_.reset(); return *this; }
    [[nodiscard]] bool empty() const noexcept { return bits_.none(); }
    [[nodiscard]] std::size_t size() const noexcept { return bits_.count(); }
    class iterator {
    public:
        using value_type = E;
        using difference_type = std::ptrdiff_t;
        using pointer = E const*;
        using reference = E;
        using iterator_category = std::forward_iterator_tag;
        iterator(enum_set const* s, std::size_t i) : s_(s), i_(i) { skip(); }
        E operator*() const { return static_cast<E>(static_cast<long long>(First) + static_cast<long long>(i_)); }
        iterator& operator++() { ++i_; skip(); return *this; }
        bool operator==(iterator const& o) const { return i_ == o.i_; }
        bool operator!=(iterator const& o) const { return i_ != o.i_; }

    private:
        void skip() { while (i_ < N && !s_->bits_.test(i_)) ++i_; }
        enum_set const* s_;
        std::size_t i_;
    };
    iterator begin() const { return {this, 0}; }
    iterator end() const { return {this, N}; }
    friend bool operator==(enum_set const& a, enum_set const& b) { return a.bits_ == b.bits_; }
    friend bool operator!=(enum_set const& a, enum_set const& b) { return !(a == b); }
    friend enum_set operator|(enum_set a, enum_set const& b) { a.bits_ |= b.bits_; return a; }
    friend std::ostream& operator<<(std::ostream& o, enum_set const& s) {
        bool c = false;
        o << "{";
        for (auto e : s) {
            if (c) o << ", ";
            c = true;
            o << e;
        }
        return o << "}";
    }

private:
    std::bitset<N> bits_{};
};
}  // namespace takatori::util
