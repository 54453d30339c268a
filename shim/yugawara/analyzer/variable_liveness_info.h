// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <yugawara/analyzer/block.h>
namespace yugawara::analyzer {
class variable_liveness_info {
public:
    explicit variable_liveness_info(block const& b) : b_(&b) {}
    [[nodiscard]] std::unordered_set<takatori::descriptor::variable> const& define() const noexcept { return b_->defs; }
    [[nodiscard]] std::unordered_set<takatori::descriptor::variable> const& kill() const noexcept { return b_->kills; }
private:
    block const* b_;
};
}  // namespace yugawara::analyzer
