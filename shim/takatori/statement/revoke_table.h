// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/statement/details/table_privilege_element.h>
#include <takatori/statement/statement.h>
namespace takatori::statement {
class revoke_table : public statement {
public:
    explicit revoke_table(std::vector<details::table_privilege_element> e) : e_(std::move(e)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::revoke_table; }
    [[nodiscard]] std::vector<details::table_privilege_element> const& elements() const noexcept { return e_; }
private:
    std::vector<details::table_privilege_element> e_;
};
}  // namespace takatori::statement
