#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>
namespace takatori::util {
template <class T>
class maybe_shared_ptr {
public:
    using element_type = T;
    constexpr maybe_shared_ptr() noexcept = default;
    constexpr maybe_shared_ptr(std::nullptr_t) noexcept {}
    template <class U, std::enable_if_t<std::is_convertible_v<U*, T*>, int> = 0>
    constexpr maybe_shared_ptr(U* p) noexcept : ptr_(p) {}
    template <class U, std::enable_if_t<std::is_convertible_v<U*, T*>, int> = 0>
    maybe_shared_ptr(std::shared_ptr<U> p) noexcept : own_(std::move(p)), ptr_(own_.get()) {}
    template <class U, class D, std::enable_if_t<std::is_convertible_v<U*, T*>, int> = 0>
    maybe_shared_ptr(std::unique_ptr<U, D>&& p) : own_(std::move(p)), ptr_(own_.get()) {}
    template <class U, std::enable_if_t<std::is_convertible_v<U*, T*>, int> = 0>
    maybe_shared_ptr(maybe_shared_ptr<U> const& o) noexcept : own_(o.own_), ptr_(o.ptr_) {}
    template <class U, std::enable_if_t<std::is_convertible_v<U*, T*>, int> = 0>
    maybe_shared_ptr(maybe_shared_ptr<U>&& o) noexcept : own_(std::move(o.own_)), ptr_(std::exchange(o.ptr_, nullptr)) {}
    template <class U>
    maybe_shared_ptr(maybe_shared_ptr<U> const& owner, T* p) noexcept : own_(owner.own_ ? std::shared_ptr<T>(owner.own_, p) : nullptr), ptr_(p) {}
    maybe_shared_ptr(maybe_shared_ptr const&) = default;
    maybe_shared_ptr(maybe_shared_ptr&& o) noexcept : own_(std::move(o.own_)), ptr_(std::exchange(o.ptr_, nullptr)) {}
    maybe_shared_ptr& operator=(maybe_shared_ptr const&) = default;
    maybe_shared_ptr& operator=(maybe_shared_ptr&& o) noexcept {
        own_ = std::move(o.own_);
        ptr_ = std::exchange(o.ptr_, nullptr);
        return *this;
    }
    template <class U>
    maybe_shared_ptr& operator=(maybe_shared_ptr<U> const& o) noexcept {
        own_ = o.own_;
        ptr_ = o.ptr_;
        return *this;
    }
    void reset() noexcept {
        own_.reset();
        ptr_ = nullptr;
    }
    template <class U>
    void reset(U* p) noexcept {
        own_.reset();
        ptr_ = p;
    }
    [[nodiscard]] T* get() const noexcept { return ptr_; }
    template <class U = T>
    [[nodiscard]] std::add_lvalue_reference_t<U> operator*() const noexcept { return *ptr_; }
    T* operator->() const noexcept { return ptr_; }
    explicit operator bool() const noexcept { return ptr_ != nullptr; }
    [[nodiscard]] bool has_value() const noexcept { return ptr_ != nullptr; }
    [[nodiscard]] std::shared_ptr<T> ownership() const noexcept { return own_; }
    void swap(maybe_shared_ptr& o) noexcept {
        std::swap(own_, o.own_);
        std::swap(ptr_, o.ptr_);
    }

private:
    std::shared_ptr<T> own_{};
    T* ptr_{};
    template <class>
    friend class maybe_shared_ptr;
};
template <class T>
maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template <class T>
maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template <class T, class U>
bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template <class T, class U>
bool operator!=(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template <class T>
bool operator==(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() == nullptr; }
template <class T>
bool operator!=(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() != nullptr; }
template <class T, class U>
bool operator<(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() < b.get(); }
template <class T>
std::ostream& operator<<(std::ostream& out, maybe_shared_ptr<T> const& v) { return out << static_cast<void const*>(v.get()); }
template <class T>
class optional_ptr;
}  // namespace takatori::util
template <class T>
struct std::hash<takatori::util::maybe_shared_ptr<T>> {
    std::size_t operator()(takatori::util::maybe_shared_ptr<T> const& v) const noexcept { return std::hash<T*>{}(v.get()); }
};
