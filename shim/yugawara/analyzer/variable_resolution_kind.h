// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace yugawara::analyzer {
enum class variable_resolution_kind { unresolved, unknown, scalar_expression, table_column, external, function_call, aggregation };
}  // namespace yugawara::analyzer
