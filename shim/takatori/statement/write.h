// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/values.h>
#include <takatori/relation/write_kind.h>
#include <takatori/statement/statement.h>
namespace takatori::statement {
class write : public statement {
public:
    using column = descriptor::variable;
    using tuple = relation::values::row;
    write(descriptor::relation d, std::vector<column> c, std::vector<tuple> t, relation::write_kind k = relation::write_kind::insert)
        : d_(std::move(d)), c_(std::move(c)), t_(std::move(t)), k_(k) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::write; }
    [[nodiscard]] relation::write_kind operator_kind() const noexcept { return k_; }
    [[nodiscard]] descriptor::relation const& destination() const noexcept { return d_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] std::vector<tuple> const& tuples() const noexcept { return t_; }
private:
    descriptor::relation d_;
    std::vector<column> c_;
    std::vector<tuple> t_;
    relation::write_kind k_;
};
}  // namespace takatori::statement
