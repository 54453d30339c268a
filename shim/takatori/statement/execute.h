// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <utility>
#include <takatori/plan/graph.h>
#include <takatori/statement/statement.h>
namespace takatori::statement {
class execute : public statement {
public:
    execute() = default;
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::execute; }
    [[nodiscard]] plan::graph_type& execution_plan() noexcept { return g_; }
    [[nodiscard]] plan::graph_type const& execution_plan() const noexcept { return g_; }
private:
    plan::graph_type g_{};
};
}  // namespace takatori::statement
