// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <yugawara/analyzer/block.h>
namespace yugawara::analyzer {
inline takatori::util::optional_ptr<block> find_unique_head(block_graph& g) { return takatori::util::optional_ptr<block>{g.head}; }
}  // namespace yugawara::analyzer
