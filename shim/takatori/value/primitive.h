// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <takatori/value/simple_value.h>
namespace takatori::value {
using boolean = simple_value<value_kind::boolean, bool>;
using int4 = simple_value<value_kind::int4, std::int32_t>;
using int8 = simple_value<value_kind::int8, std::int64_t>;
using float4 = simple_value<value_kind::float4, float>;
using float8 = simple_value<value_kind::float8, double>;
class unknown : public data {
public:
    [[nodiscard]] value_kind kind() const noexcept override { return value_kind::unknown; }
};
}  // namespace takatori::value
