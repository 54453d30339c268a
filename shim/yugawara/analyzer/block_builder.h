// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <yugawara/analyzer/block.h>
namespace yugawara::analyzer {
struct block_builder {
    static block_graph build(takatori::relation::graph_type& g) { return block_graph{g.blocks}; }
};
}  // namespace yugawara::analyzer
