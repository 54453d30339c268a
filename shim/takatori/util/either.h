// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <variant>
namespace takatori::util {
template <class Error, class Value>
class either {
public:
    either(Error e) : v_(std::in_place_index<0>, std::move(e)) {}
    either(Value x) : v_(std::in_place_index<1>, std::move(x)) {}
    [[nodiscard]] bool has_value() const noexcept { return v_.index() == 1; }
    [[nodiscard]] bool is_success() const noexcept { return has_value(); }
    [[nodiscard]] bool is_error() const noexcept { return !has_value(); }
    [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
    [[nodiscard]] Value& value() { return std::get<1>(v_); }
    [[nodiscard]] Value const& value() const { return std::get<1>(v_); }
    [[nodiscard]] Error& error() { return std::get<0>(v_); }
    [[nodiscard]] Error const& error() const { return std::get<0>(v_); }
    [[nodiscard]] Value& operator*() { return value(); }
    [[nodiscard]] Value* operator->() { return &value(); }
private:
    std::variant<Error, Value> v_;
};
}  // namespace takatori::util
