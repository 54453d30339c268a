// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/endpoint_kind.h>
#include <vector>
namespace takatori::relation::details {
class range_endpoint {
public:
    using key = search_key_element;
    range_endpoint() = default;
    range_endpoint(std::vector<key> k, endpoint_kind kind) : k_(std::move(k)), kind_(kind) {}
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return k_; }
    [[nodiscard]] endpoint_kind kind() const noexcept { return kind_; }
private:
    std::vector<key> k_{};
    endpoint_kind kind_{endpoint_kind::unbound};
};
}  // namespace takatori::relation::details
