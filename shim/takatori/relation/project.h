// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
namespace takatori::relation {
class project : public expression {
public:
    using column = details::search_key_element;  // a variable and its value
    explicit project(std::vector<column> c) : expression(1, 1), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::project; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    std::vector<column> c_;
};
}  // namespace takatori::relation
