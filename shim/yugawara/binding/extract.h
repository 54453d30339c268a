// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <type_traits>
#include <takatori/descriptor/function.h>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/storage.h>
#include <takatori/plan/exchange.h>
#include <takatori/util/optional_ptr.h>
#include <yugawara/aggregate/declaration.h>
#include <yugawara/function/declaration.h>
#include <yugawara/storage/index.h>
#include <yugawara/storage/table.h>
namespace yugawara::binding {
template <class T>
takatori::util::optional_ptr<T const> extract_if(takatori::descriptor::function const& f) {
    return takatori::util::optional_ptr<T const>{static_cast<T const*>(f.entity().get())};
}
template <class T>
takatori::util::optional_ptr<T const> extract_if(takatori::descriptor::relation const& r) {
    bool want = std::is_same_v<T, takatori::plan::exchange>;
    return takatori::util::optional_ptr<T const>{r.is_exchange() == want ? static_cast<T const*>(r.entity().get()) : nullptr};
}
template <class T>
T const& extract(takatori::descriptor::function const& f) { return *static_cast<T const*>(f.entity().get()); }
template <class T>
T const& extract(takatori::descriptor::relation const& r) { return *static_cast<T const*>(r.entity().get()); }
template <class T>
T const& extract(takatori::descriptor::storage const& s) { return *static_cast<T const*>(s.entity().get()); }
template <class T>
std::shared_ptr<T const> extract_shared(takatori::descriptor::storage const& s) { return std::static_pointer_cast<T const>(s.entity()); }
}  // namespace yugawara::binding
