// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
#include <takatori/relation/join_kind.h>
#include <takatori/util/optional_ptr.h>
namespace takatori::relation {
class join_find : public expression {
public:
    using column = details::mapping_element;
    using key = details::search_key_element;
    join_find(join_kind j, descriptor::relation s, std::vector<column> c, std::vector<key> k, scalar::expression_ptr cond)
        : expression(1, 1), j_(j), s_(std::move(s)), c_(std::move(c)), k_(std::move(k)), cond_(std::move(cond)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::join_find; }
    [[nodiscard]] join_kind operator_kind() const noexcept { return j_; }
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return k_; }
    [[nodiscard]] util::optional_ptr<scalar::expression const> condition() const noexcept { return util::optional_ptr<scalar::expression const>{cond_.get()}; }
private:
    join_kind j_;
    descriptor::relation s_;
    std::vector<column> c_;
    std::vector<key> k_;
    scalar::expression_ptr cond_;
};
}  // namespace takatori::relation
