// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/util/enum_set.h>
namespace yugawara::function {
enum class function_feature { scalar_function, table_valued_function };
using function_feature_set = takatori::util::enum_set<function_feature, function_feature::scalar_function, function_feature::table_valued_function>;
}  // namespace yugawara::function
