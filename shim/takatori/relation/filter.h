// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
namespace takatori::relation {
class filter : public expression {
public:
    explicit filter(scalar::expression_ptr c) : expression(1, 1), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::filter; }
    [[nodiscard]] scalar::expression const& condition() const noexcept { return *c_; }
private:
    scalar::expression_ptr c_;
};
}  // namespace takatori::relation
