// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/util/enum_tag.h>
namespace takatori::type {
struct varying_t {
    explicit constexpr varying_t(bool v) noexcept : value(v) {}
    bool value;
};
inline constexpr varying_t varying{true};
}  // namespace takatori::type
