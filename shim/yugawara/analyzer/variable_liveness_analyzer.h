// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <yugawara/analyzer/variable_liveness_info.h>
namespace yugawara::analyzer {
class variable_liveness_analyzer {
public:
    explicit variable_liveness_analyzer(block_graph const&) {}
    [[nodiscard]] variable_liveness_info inspect(block const& b) const { return variable_liveness_info{b}; }
};
}  // namespace yugawara::analyzer
