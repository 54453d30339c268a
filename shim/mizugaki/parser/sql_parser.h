// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <mizugaki/front_end.h>
#include <takatori/document/document_map.h>
namespace mizugaki::ast {
class compilation_unit;
}
namespace mizugaki::ast::statement {
enum class kind { empty_statement, other };
class statement {
public:
    explicit statement(kind k) : k_(k) {}
    [[nodiscard]] kind node_kind() const noexcept { return k_; }
private:
    kind k_;
};
}  // namespace mizugaki::ast::statement
namespace mizugaki::ast {
class compilation_unit {
public:
    [[nodiscard]] std::vector<std::shared_ptr<statement::statement>>& statements() noexcept { return s_; }
    front_end what{};
private:
    std::vector<std::shared_ptr<statement::statement>> s_{};
};
}  // namespace mizugaki::ast
namespace mizugaki::parser {
enum class sql_parser_element_kind { a, b };
constexpr sql_parser_element_kind sql_parser_element_kind_first = sql_parser_element_kind::a, sql_parser_element_kind_last = sql_parser_element_kind::b;
class sql_parser_options {
public:
    [[nodiscard]] std::map<sql_parser_element_kind, std::size_t>& element_limits() noexcept { return l_; }
    [[nodiscard]] std::size_t& tree_depth_limit() noexcept { return d_; }
private:
    std::map<sql_parser_element_kind, std::size_t> l_{};
    std::size_t d_{};
};
class sql_parser_diagnostic {
public:
    [[nodiscard]] std::string message() const { return "syntax error"; }
    [[nodiscard]] takatori::document::region region() const { return {}; }
};
class sql_parser_result {
public:
    [[nodiscard]] bool has_diagnostic() const noexcept { return !u_; }
    [[nodiscard]] sql_parser_diagnostic const& diagnostic() const noexcept { return d_; }
    [[nodiscard]] std::shared_ptr<ast::compilation_unit>& value() noexcept { return u_; }
    std::shared_ptr<ast::compilation_unit> u_{};
private:
    sql_parser_diagnostic d_{};
};
class sql_parser {
public:
    [[nodiscard]] sql_parser_options& options() noexcept { return o_; }
    sql_parser_result operator()(std::string const&, std::string const& sql) const {
        sql_parser_result r;
        auto fe = front_end::lookup()(sql);
        if (fe.k == front_end::kind::syntax_error) return r;
        r.u_ = std::make_shared<ast::compilation_unit>();
        for (int i = 0; i < fe.empties; ++i) r.u_->statements().push_back(std::make_shared<ast::statement::statement>(ast::statement::kind::empty_statement));
        for (int i = 0; i < fe.statements; ++i) r.u_->statements().push_back(std::make_shared<ast::statement::statement>(ast::statement::kind::other));
        r.u_->what = std::move(fe);
        return r;
    }
private:
    sql_parser_options o_{};
};
}  // namespace mizugaki::parser
