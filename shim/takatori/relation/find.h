// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
namespace takatori::relation {
class find : public expression {
public:
    using column = details::mapping_element;
    using key = details::search_key_element;
    find(descriptor::relation s, std::vector<column> c, std::vector<key> k) : expression(0, 1), s_(std::move(s)), c_(std::move(c)), k_(std::move(k)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::find; }
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return k_; }
private:
    descriptor::relation s_;
    std::vector<column> c_;
    std::vector<key> k_;
};
}  // namespace takatori::relation
