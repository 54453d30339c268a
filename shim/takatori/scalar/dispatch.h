// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdlib>
#include <takatori/scalar/binary.h>
#include <takatori/scalar/cast.h>
#include <takatori/scalar/coalesce.h>
#include <takatori/scalar/compare.h>
#include <takatori/scalar/conditional.h>
#include <takatori/scalar/expression.h>
#include <takatori/scalar/extension.h>
#include <takatori/scalar/function_call.h>
#include <takatori/scalar/immediate.h>
#include <takatori/scalar/let.h>
#include <takatori/scalar/match.h>
#include <takatori/scalar/unary.h>
#include <takatori/scalar/variable_reference.h>
namespace takatori::scalar {
template <class F, class... Args>
auto dispatch(F&& f, expression const& e, Args&&... args) {
    switch (e.kind()) {
        case expression_kind::immediate: return f(static_cast<immediate const&>(e), std::forward<Args>(args)...);
        case expression_kind::variable_reference: return f(static_cast<variable_reference const&>(e), std::forward<Args>(args)...);
        case expression_kind::unary: return f(static_cast<unary const&>(e), std::forward<Args>(args)...);
        case expression_kind::cast: return f(static_cast<cast const&>(e), std::forward<Args>(args)...);
        case expression_kind::binary: return f(static_cast<binary const&>(e), std::forward<Args>(args)...);
        case expression_kind::compare: return f(static_cast<compare const&>(e), std::forward<Args>(args)...);
        case expression_kind::match: return f(static_cast<match const&>(e), std::forward<Args>(args)...);
        case expression_kind::conditional: return f(static_cast<conditional const&>(e), std::forward<Args>(args)...);
        case expression_kind::coalesce: return f(static_cast<coalesce const&>(e), std::forward<Args>(args)...);
        case expression_kind::let: return f(static_cast<let const&>(e), std::forward<Args>(args)...);
        case expression_kind::function_call: return f(static_cast<function_call const&>(e), std::forward<Args>(args)...);
        case expression_kind::extension: return f(static_cast<extension const&>(e), std::forward<Args>(args)...);
    }
    std::abort();
}
}  // namespace takatori::scalar
