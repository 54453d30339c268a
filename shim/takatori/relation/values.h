// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
namespace takatori::relation {
class values : public expression {
public:
    class row {
    public:
        explicit row(std::vector<scalar::expression_ptr> e) : e_(std::move(e)) {}
        [[nodiscard]] scalar::owned_list<scalar::expression> const& elements() const noexcept { return e_; }
    private:
        scalar::owned_list<scalar::expression> e_;
    };
    values(std::vector<descriptor::variable> c, std::vector<row> r) : expression(0, 1), c_(std::move(c)), r_(std::move(r)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::values; }
    [[nodiscard]] std::vector<descriptor::variable> const& columns() const noexcept { return c_; }
    [[nodiscard]] std::vector<row> const& rows() const noexcept { return r_; }
private:
    std::vector<descriptor::variable> c_;
    std::vector<row> r_;
};
}  // namespace takatori::relation
