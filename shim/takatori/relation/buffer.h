// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
namespace takatori::relation {
class buffer : public expression {
public:
    explicit buffer(int n) : expression(1, n) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::buffer; }
};
}  // namespace takatori::relation
