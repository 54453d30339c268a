// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <utility>
#include <takatori/descriptor/variable.h>
#include <takatori/scalar/expression.h>
#include <takatori/tree/tree_fragment_vector.h>
namespace takatori::relation::details {
class search_key_element {
public:
    search_key_element(descriptor::variable v, scalar::expression_ptr e) : v_(std::move(v)), e_(std::move(e)) {}
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
    [[nodiscard]] scalar::expression const& value() const noexcept { return *e_; }
private:
    descriptor::variable v_;
    scalar::expression_ptr e_;
};
}  // namespace takatori::relation::details
