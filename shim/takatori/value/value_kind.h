// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <ostream>
namespace takatori::value {
enum class value_kind { unknown, boolean, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, extension };
inline std::ostream& operator<<(std::ostream& o, value_kind v) { return o << static_cast<int>(v); }
}  // namespace takatori::value
