// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace yugawara::analyzer {
class index_estimator {};
}  // namespace yugawara::analyzer
