// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <vector>
namespace takatori::tree {
template <class T>
using tree_fragment_vector = std::vector<T>;
}  // namespace takatori::tree
