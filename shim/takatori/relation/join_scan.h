// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
#include <takatori/relation/details/range_endpoint.h>
#include <takatori/relation/join_kind.h>
#include <takatori/util/optional_ptr.h>
namespace takatori::relation {
class join_scan : public expression {
public:
    using column = details::mapping_element;
    using endpoint = details::range_endpoint;
    using key = endpoint::key;
    join_scan(join_kind j, descriptor::relation s, std::vector<column> c, endpoint l, endpoint u, scalar::expression_ptr cond)
        : expression(1, 1), j_(j), s_(std::move(s)), c_(std::move(c)), l_(std::move(l)), u_(std::move(u)), cond_(std::move(cond)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::join_scan; }
    [[nodiscard]] join_kind operator_kind() const noexcept { return j_; }
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] endpoint const& lower() const noexcept { return l_; }
    [[nodiscard]] endpoint const& upper() const noexcept { return u_; }
    [[nodiscard]] util::optional_ptr<scalar::expression const> condition() const noexcept { return util::optional_ptr<scalar::expression const>{cond_.get()}; }
private:
    join_kind j_;
    descriptor::relation s_;
    std::vector<column> c_;
    endpoint l_, u_;
    scalar::expression_ptr cond_;
};
}  // namespace takatori::relation
