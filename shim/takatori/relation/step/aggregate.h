// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
#include <takatori/descriptor/function.h>
namespace takatori::relation::step {
class aggregate : public expression {
public:
    class column {
    public:
        column(descriptor::function f, std::vector<descriptor::variable> a, descriptor::variable d) : f_(std::move(f)), a_(std::move(a)), d_(std::move(d)) {}
        [[nodiscard]] descriptor::function const& function() const noexcept { return f_; }
        [[nodiscard]] std::vector<descriptor::variable> const& arguments() const noexcept { return a_; }
        [[nodiscard]] descriptor::variable const& destination() const noexcept { return d_; }
    private:
        descriptor::function f_;
        std::vector<descriptor::variable> a_;
        descriptor::variable d_;
    };
    explicit aggregate(std::vector<column> c) : expression(1, 1), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::aggregate_group; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    std::vector<column> c_;
};
}  // namespace takatori::relation::step
