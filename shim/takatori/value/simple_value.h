// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <takatori/value/data.h>
namespace takatori::value {
template <value_kind K, class T, class View = T>
class simple_value : public data {
public:
    using value_type = T;
    using view_type = View;
    static constexpr value_kind tag = K;
    explicit simple_value(T v) : v_(std::move(v)) {}
    [[nodiscard]] value_kind kind() const noexcept override { return K; }
    [[nodiscard]] view_type get() const noexcept { return v_; }
private:
    T v_;
};
}  // namespace takatori::value
