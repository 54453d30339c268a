// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <deque>
#include <memory>
#include <unordered_set>
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/graph.h>
#include <takatori/scalar/expression.h>
#include <takatori/util/optional_ptr.h>
namespace yugawara::analyzer {
class block {
public:
    [[nodiscard]] std::deque<block> const& downstreams() const noexcept { return downs; }
    [[nodiscard]] takatori::scalar::owned_list<takatori::relation::expression>::iterator begin() const { return takatori::scalar::owned_list<takatori::relation::expression>::iterator{exprs.begin()}; }
    [[nodiscard]] takatori::scalar::owned_list<takatori::relation::expression>::iterator end() const { return takatori::scalar::owned_list<takatori::relation::expression>::iterator{exprs.end()}; }
    std::deque<block> downs{};
    std::vector<std::shared_ptr<takatori::relation::expression const>> exprs{};
    std::unordered_set<takatori::descriptor::variable> defs{}, kills{};
};
class block_graph {
public:
    block* head{};
};
}  // namespace yugawara::analyzer
