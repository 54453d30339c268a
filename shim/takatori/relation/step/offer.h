// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
namespace takatori::relation::step {
class offer : public expression {
public:
    using column = details::mapping_element;
    offer(descriptor::relation d, std::vector<column> c) : expression(1, 0), d_(std::move(d)), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::offer; }
    [[nodiscard]] descriptor::relation const& destination() const noexcept { return d_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    descriptor::relation d_;
    std::vector<column> c_;
};
}  // namespace takatori::relation::step
