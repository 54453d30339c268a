// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <vector>
#include <takatori/plan/exchange.h>
#include <takatori/plan/step.h>
#include <takatori/relation/graph.h>
namespace takatori::plan {
class process : public step {
public:
    [[nodiscard]] step_kind kind() const noexcept override { return step_kind::process; }
    [[nodiscard]] relation::graph_type& operators() noexcept { return g_; }
    [[nodiscard]] relation::graph_type const& operators() const noexcept { return g_; }
    [[nodiscard]] std::vector<std::reference_wrapper<exchange const>> upstreams() const { return of(up); }
    [[nodiscard]] std::vector<std::reference_wrapper<exchange const>> downstreams() const { return of(down); }
private:
    relation::graph_type g_{};
    static std::vector<std::reference_wrapper<exchange const>> of(std::vector<step*> const& v) {
        std::vector<std::reference_wrapper<exchange const>> r;
        for (auto* s : v) r.emplace_back(static_cast<exchange const&>(*s));
        return r;
    }
};
}  // namespace takatori::plan
