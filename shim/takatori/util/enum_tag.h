#pragma once
#include <type_traits>
#include <utility>
namespace takatori::util {
template <auto V>
struct enum_tag_t {
    explicit enum_tag_t() = default;
    static constexpr auto value = V;
    using type = decltype(V);
    constexpr operator decltype(V)() const noexcept { return V; }
};
template <auto V>
inline constexpr enum_tag_t<V> enum_tag{};
template <auto V, class F, class... A>
inline auto enum_tag_callback(F&& f, A&&... a) { return std::forward<F>(f)(enum_tag<V>, std::forward<A>(a)...); }
}  // namespace takatori::util
