#pragma once
#include <memory>
#include <type_traits>
#include "optional_ptr.h"
namespace takatori::util {
template <class T, class U>
auto& downcast(U& v) {
    if constexpr (std::is_const_v<U>) return dynamic_cast<T const&>(v);
    else return dynamic_cast<T&>(v);
}
template <class T, class U>
auto* downcast(U* v) {
    if constexpr (std::is_const_v<U>) return dynamic_cast<T const*>(v);
    else return dynamic_cast<T*>(v);
}
template <class T, class U>
auto& unsafe_downcast(U& v) {
    if constexpr (std::is_const_v<U>) return static_cast<T const&>(v);
    else return static_cast<T&>(v);
}
template <class T, class U>
auto& unsafe_downcast(U&& v) {
    return unsafe_downcast<T, std::remove_reference_t<U>>(v);
}
template <class T, class U>
auto* unsafe_downcast(U* v) {
    if constexpr (std::is_const_v<U>) return static_cast<T const*>(v);
    else return static_cast<T*>(v);
}
template <class T, class U>
std::unique_ptr<T> unsafe_downcast(std::unique_ptr<U>&& v) {
    return std::unique_ptr<T>{static_cast<T*>(v.release())};
}
}  // namespace takatori::util
