// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <ostream>
#include <string_view>
namespace takatori::type {
enum class type_kind : std::size_t {
    boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval,
    array, record, table, unknown, row_reference, row_id, blob, clob, declared, extension,
};
inline std::string_view to_string_view(type_kind k) noexcept {
    constexpr std::string_view n[] = {"boolean", "int1", "int2", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit", "date", "time_of_day",
        "time_point", "datetime_interval", "array", "record", "table", "unknown", "row_reference", "row_id", "blob", "clob", "declared", "extension"};
    return n[static_cast<std::size_t>(k)];
}
inline std::ostream& operator<<(std::ostream& o, type_kind k) { return o << to_string_view(k); }
}  // namespace takatori::type
