// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdlib>
#include <takatori/relation/find.h>
#include <takatori/relation/scan.h>
#include <takatori/relation/values.h>
#include <takatori/relation/join_find.h>
#include <takatori/relation/join_scan.h>
#include <takatori/relation/apply.h>
#include <takatori/relation/project.h>
#include <takatori/relation/filter.h>
#include <takatori/relation/buffer.h>
#include <takatori/relation/identify.h>
#include <takatori/relation/emit.h>
#include <takatori/relation/write.h>
#include <takatori/relation/step/join.h>
#include <takatori/relation/step/aggregate.h>
#include <takatori/relation/step/intersection.h>
#include <takatori/relation/step/difference.h>
#include <takatori/relation/step/flatten.h>
#include <takatori/relation/step/take_flat.h>
#include <takatori/relation/step/take_group.h>
#include <takatori/relation/step/take_cogroup.h>
#include <takatori/relation/step/offer.h>
namespace takatori::relation::step {
template <class F, class... Args>
auto dispatch(F&& f, expression const& e, Args&&... args) {
    switch (e.kind()) {
        case expression_kind::find: return f(static_cast<relation::find const&>(e), std::forward<Args>(args)...);
        case expression_kind::scan: return f(static_cast<relation::scan const&>(e), std::forward<Args>(args)...);
        case expression_kind::values: return f(static_cast<relation::values const&>(e), std::forward<Args>(args)...);
        case expression_kind::join_find: return f(static_cast<relation::join_find const&>(e), std::forward<Args>(args)...);
        case expression_kind::join_scan: return f(static_cast<relation::join_scan const&>(e), std::forward<Args>(args)...);
        case expression_kind::apply: return f(static_cast<relation::apply const&>(e), std::forward<Args>(args)...);
        case expression_kind::project: return f(static_cast<relation::project const&>(e), std::forward<Args>(args)...);
        case expression_kind::filter: return f(static_cast<relation::filter const&>(e), std::forward<Args>(args)...);
        case expression_kind::buffer: return f(static_cast<relation::buffer const&>(e), std::forward<Args>(args)...);
        case expression_kind::identify: return f(static_cast<relation::identify const&>(e), std::forward<Args>(args)...);
        case expression_kind::emit: return f(static_cast<relation::emit const&>(e), std::forward<Args>(args)...);
        case expression_kind::write: return f(static_cast<relation::write const&>(e), std::forward<Args>(args)...);
        case expression_kind::join_group: return f(static_cast<join const&>(e), std::forward<Args>(args)...);
        case expression_kind::aggregate_group: return f(static_cast<aggregate const&>(e), std::forward<Args>(args)...);
        case expression_kind::intersection_group: return f(static_cast<intersection const&>(e), std::forward<Args>(args)...);
        case expression_kind::difference_group: return f(static_cast<difference const&>(e), std::forward<Args>(args)...);
        case expression_kind::flatten_group: return f(static_cast<flatten const&>(e), std::forward<Args>(args)...);
        case expression_kind::take_flat: return f(static_cast<take_flat const&>(e), std::forward<Args>(args)...);
        case expression_kind::take_group: return f(static_cast<take_group const&>(e), std::forward<Args>(args)...);
        case expression_kind::take_cogroup: return f(static_cast<take_cogroup const&>(e), std::forward<Args>(args)...);
        case expression_kind::offer: return f(static_cast<offer const&>(e), std::forward<Args>(args)...);
        default: std::abort();
    }
}
}  // namespace takatori::relation::step
