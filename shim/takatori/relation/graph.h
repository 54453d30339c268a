// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <memory>
#include <vector>
#include <takatori/relation/expression.h>
namespace yugawara::analyzer { class block; }
namespace takatori::relation {
class graph_type {
public:
    yugawara::analyzer::block* blocks{};  // the head of its basic blocks, set by the harness
    std::vector<std::shared_ptr<expression>> nodes{};  // upstream operators first
    [[nodiscard]] std::size_t size() const noexcept { return nodes.size(); }
    template <class T, class... Args>
    T& insert(Args&&... args) {
        auto p = std::make_shared<T>(std::forward<Args>(args)...);
        auto& r = *p;
        nodes.push_back(std::move(p));
        return r;
    }
};
inline void enumerate_top(graph_type const& g, std::function<void(expression const&)> const& f) {
    for (auto&& n : g.nodes) if (n->input_ports().empty()) f(*n);
}
inline void sort_from_upstream(graph_type const& g, std::function<void(expression const&)> const& f) {
    for (auto&& n : g.nodes) f(*n);
}
}  // namespace takatori::relation
