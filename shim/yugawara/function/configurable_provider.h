// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <memory>
#include <shared_mutex>
#include <vector>
#include <yugawara/function/declaration.h>
namespace yugawara::function {
template <class Mutex>
class basic_configurable_provider {
public:
    std::shared_ptr<declaration const> const& add(std::shared_ptr<declaration const> d) { v_.push_back(std::move(d)); return v_.back(); }
    std::shared_ptr<declaration const> const& add(declaration&& d) { return add(std::make_shared<declaration>(std::move(d))); }
    void each(std::function<void(std::shared_ptr<declaration const> const&)> const& f) const {
        for (auto&& e : v_) f(e);
    }
private:
    std::vector<std::shared_ptr<declaration const>> v_{};
};
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
}  // namespace yugawara::function
