// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <chrono>
#include <memory>
#include <ostream>
#include <vector>
#include <mizugaki/front_end.h>
#include <mizugaki/parser/sql_parser.h>
#include <takatori/util/maybe_shared_ptr.h>
#include <takatori/util/optional_ptr.h>
#include <yugawara/diagnostic.h>
#include <yugawara/schema/configurable_provider.h>
#include <yugawara/variable/provider.h>
namespace mizugaki {
class placeholder_map {};
}  // namespace mizugaki
namespace mizugaki::analyzer {
enum class sql_analyzer_code { ambiguous_type,catalog_not_found,column_already_exists,column_ambiguous,column_not_found,flexible_length_is_not_supported,function_already_exists,function_ambiguous,function_not_found,inconsistent_columns,inconsistent_elements,inconsistent_table,inconsistent_type,index_already_exists,index_not_found,invalid_aggregation_column,invalid_constraint,invalid_numeric_scale,invalid_type_length,invalid_unsigned_integer,malformed_approximate_number,malformed_quoted_string,malformed_syntax,missing_context_of_default_value,missing_context_of_null,primary_index_already_exists,primary_index_not_found,relation_ambiguous,schema_already_exists,schema_not_found,sequence_already_exists,sequence_not_found,symbol_already_exists,symbol_not_found,table_already_exists,table_not_found,unknown,unresolved_variable,unsupported_approximate_number,unsupported_decimal_value,unsupported_feature,unsupported_string_value,variable_already_exists,variable_ambiguous,variable_not_found,view_already_exists,view_not_found, };
inline std::ostream& operator<<(std::ostream& o, sql_analyzer_code c) { return o << static_cast<int>(c); }
enum class sql_analyzer_result_kind { execution_plan, statement, diagnostics };
class sql_analyzer_options {
public:
    template <class C, class P, class S>
    sql_analyzer_options(C const&, P const&, S const&) {}
    [[nodiscard]] bool& allow_context_independent_null() noexcept { return a_; }
    [[nodiscard]] bool& lowercase_regular_identifiers() noexcept { return b_; }
    [[nodiscard]] bool& lowercase_function_regular_identifiers() noexcept { return c_; }
    [[nodiscard]] std::chrono::minutes& system_zone_offset() noexcept { return z_; }
private:
    bool a_{}, b_{}, c_{};
    std::chrono::minutes z_{};
};
class sql_analyzer_result {
public:
    explicit sql_analyzer_result(front_end f) : f_(std::move(f)) {}
    [[nodiscard]] bool is_valid() const noexcept { return f_.k != front_end::kind::analyzer_error; }
    [[nodiscard]] sql_analyzer_result_kind kind() const noexcept {
        return f_.k == front_end::kind::plan ? sql_analyzer_result_kind::execution_plan : f_.k == front_end::kind::statement ? sql_analyzer_result_kind::statement : sql_analyzer_result_kind::diagnostics;
    }
    template <sql_analyzer_result_kind K>
    auto release() {
        if constexpr (K == sql_analyzer_result_kind::diagnostics) {
            return std::vector<yugawara::diagnostic<sql_analyzer_code>>{{static_cast<sql_analyzer_code>(f_.code), "analyzer error"}};
        } else {
            return std::make_unique<analyzed>(analyzed{std::move(f_.finish)});
        }
    }
private:
    front_end f_;
};
class sql_analyzer {
public:
    sql_analyzer_result operator()(sql_analyzer_options const&, ast::statement::statement const&, ast::compilation_unit const& u, placeholder_map const&,
        takatori::util::optional_ptr<yugawara::variable::provider const> v) const {
        front_end::variables() = v.get();
        auto f = u.what;
        if (f.check && (f.k == front_end::kind::plan || f.k == front_end::kind::statement)) {
            if (auto c = f.check(v.get()); c >= 0) {
                f.k = front_end::kind::analyzer_error;
                f.code = c;
            }
        }
        return sql_analyzer_result{std::move(f)};
    }
};
}  // namespace mizugaki::analyzer
