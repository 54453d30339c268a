// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
#include <takatori/relation/join_kind.h>
#include <takatori/util/optional_ptr.h>
namespace takatori::relation::step {
class join : public expression {
public:
    explicit join(join_kind j, scalar::expression_ptr c = {}) : expression(1, 1), j_(j), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::join_group; }
    [[nodiscard]] join_kind operator_kind() const noexcept { return j_; }
    [[nodiscard]] util::optional_ptr<scalar::expression const> condition() const noexcept { return util::optional_ptr<scalar::expression const>{c_.get()}; }
private:
    join_kind j_;
    scalar::expression_ptr c_;
};
}  // namespace takatori::relation::step
