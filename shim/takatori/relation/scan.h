// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <optional>
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
#include <takatori/relation/details/range_endpoint.h>
namespace takatori::relation {
class scan : public expression {
public:
    using column = details::mapping_element;
    using endpoint = details::range_endpoint;
    using key = endpoint::key;
    scan(descriptor::relation s, std::vector<column> c, endpoint l, endpoint u) : expression(0, 1), s_(std::move(s)), c_(std::move(c)), l_(std::move(l)), u_(std::move(u)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::scan; }
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] endpoint const& lower() const noexcept { return l_; }
    [[nodiscard]] endpoint const& upper() const noexcept { return u_; }
    [[nodiscard]] std::optional<std::size_t> limit() const noexcept { return std::nullopt; }
private:
    descriptor::relation s_;
    std::vector<column> c_;
    endpoint l_, u_;
};
}  // namespace takatori::relation
