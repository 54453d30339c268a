// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace takatori::scalar {
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
}  // namespace takatori::scalar
