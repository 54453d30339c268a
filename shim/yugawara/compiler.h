// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <utility>
#include <mizugaki/front_end.h>
#include <yugawara/compiler_options.h>
#include <yugawara/compiler_result.h>
namespace yugawara {
// the harness decides what compilation gives
class compiler {
public:
    compiler_result operator()(compiler_options& o, mizugaki::analyzed&& a) const { return a.finish(o); }
};
}  // namespace yugawara
