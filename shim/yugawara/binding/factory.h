// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <takatori/descriptor/function.h>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/storage.h>
#include <takatori/descriptor/variable.h>
#include <takatori/plan/exchange.h>
#include <yugawara/aggregate/declaration.h>
#include <yugawara/function/declaration.h>
#include <yugawara/storage/column.h>
#include <yugawara/storage/index.h>
#include <yugawara/storage/table.h>
#include <yugawara/variable/declaration.h>
namespace yugawara::binding {
class factory {
public:
    takatori::descriptor::function operator()(std::shared_ptr<yugawara::function::declaration const> f) const { return takatori::descriptor::function{std::move(f)}; }
    takatori::descriptor::function operator()(std::shared_ptr<yugawara::aggregate::declaration const> f) const { return takatori::descriptor::function{std::move(f)}; }
    takatori::descriptor::variable operator()(yugawara::storage::column const& c) const { return takatori::descriptor::variable{c.identity()}; }
    takatori::descriptor::variable operator()(std::shared_ptr<yugawara::variable::declaration const> const& d) const { return takatori::descriptor::variable{d->identity()}; }
    takatori::descriptor::relation operator()(std::shared_ptr<yugawara::storage::index const> i) const { return takatori::descriptor::relation{std::move(i)}; }
    // an exchange is denoted by its address
    takatori::descriptor::relation operator()(takatori::plan::exchange const& e) const {
        return takatori::descriptor::relation{std::shared_ptr<void const>{std::shared_ptr<void const>{}, static_cast<void const*>(&e)}, true};
    }
    takatori::descriptor::storage storage(std::shared_ptr<yugawara::storage::table const> t) const { return takatori::descriptor::storage{std::move(t)}; }
    takatori::descriptor::storage storage(std::shared_ptr<yugawara::storage::index const> i) const { return takatori::descriptor::storage{std::move(i)}; }
};
}  // namespace yugawara::binding
