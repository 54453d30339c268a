// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <utility>
#include <vector>
#include <yugawara/schema/catalog.h>
#include <yugawara/schema/declaration.h>
#include <yugawara/schema/search_path.h>
namespace yugawara::schema {
class configurable_provider {
public:
    std::shared_ptr<declaration const> const& add(declaration d) { return e_.emplace_back(std::make_shared<declaration const>(std::move(d))); }
private:
    std::vector<std::shared_ptr<declaration const>> e_{};
};
}  // namespace yugawara::schema
