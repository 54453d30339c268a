// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
#include <takatori/relation/write_kind.h>
namespace takatori::relation {
class write : public expression {
public:
    using column = details::mapping_element;
    using key = details::mapping_element;
    write(write_kind w, descriptor::relation d, std::vector<key> k, std::vector<column> c) : expression(1, 0), w_(w), d_(std::move(d)), k_(std::move(k)), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::write; }
    [[nodiscard]] write_kind operator_kind() const noexcept { return w_; }
    [[nodiscard]] descriptor::relation const& destination() const noexcept { return d_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return k_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    write_kind w_;
    descriptor::relation d_;
    std::vector<key> k_;
    std::vector<column> c_;
};
}  // namespace takatori::relation
