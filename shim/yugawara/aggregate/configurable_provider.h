// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <shared_mutex>
#include <utility>
#include <vector>
#include <yugawara/aggregate/declaration.h>
namespace yugawara::aggregate {
template <class Mutex>
class basic_configurable_provider {
public:
    std::shared_ptr<declaration const> add(declaration d) { return all.emplace_back(std::make_shared<declaration const>(std::move(d))); }
    std::vector<std::shared_ptr<declaration const>> all{};
};
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
}  // namespace yugawara::aggregate
