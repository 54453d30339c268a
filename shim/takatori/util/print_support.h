#pragma once
#include <memory>
#include <ostream>
#include <vector>
#include <optional>
namespace takatori::util {
template <class T, class = void>
struct printable : std::false_type {};
template <class T>
struct printable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<T const&>())>> : std::true_type {};
template <class T>
class print_support {
public:
    explicit print_support(T const& v) noexcept : v_(&v) {}
    friend std::ostream& operator<<(std::ostream& o, print_support const& p) {
        if constexpr (printable<T>::value) return o << *p.v_;
        else return o << "(value)";
    }

private:
    T const* v_;
};
}  // namespace takatori::util
