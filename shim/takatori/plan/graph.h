// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <memory>
#include <vector>
#include <takatori/plan/step.h>
#include <takatori/relation/graph.h>
namespace takatori::plan {
class graph_type {
public:
    std::vector<std::unique_ptr<step>> nodes{};  // upstream steps first
    [[nodiscard]] std::size_t size() const noexcept { return nodes.size(); }
    template <class T, class... Args>
    T& insert(Args&&... args) {
        auto p = std::make_unique<T>(std::forward<Args>(args)...);
        auto& r = *p;
        nodes.push_back(std::move(p));
        return r;
    }
};
inline void sort_from_upstream(graph_type const& g, std::function<void(step const&)> const& f) {
    for (auto&& n : g.nodes) f(*n);
}
inline void enumerate_bottom(graph_type const& g, std::function<void(step const&)> const& f) {
    for (auto&& n : g.nodes) if (n->down.empty()) f(*n);
}
}  // namespace takatori::plan
