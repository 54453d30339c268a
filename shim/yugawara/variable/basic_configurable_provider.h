// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <yugawara/variable/declaration.h>
#include <yugawara/variable/provider.h>
namespace yugawara::variable {
template <class Mutex>
class basic_configurable_provider : public provider {
public:
    using consumer_type = std::function<void(std::shared_ptr<declaration const> const&)>;
    void each(consumer_type const& f) const { for (auto&& [n, d] : e_) f(d); }
    std::shared_ptr<declaration const> const& add(std::shared_ptr<declaration const> d, bool = false) { return e_[d->name()] = std::move(d); }
    std::shared_ptr<declaration const> const& add(declaration d, bool o = false) { return add(std::make_shared<declaration const>(std::move(d)), o); }
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view n) const {
        auto it = e_.find(std::string{n});
        return it == e_.end() ? nullptr : it->second;
    }
private:
    std::map<std::string, std::shared_ptr<declaration const>> e_{};
};
}  // namespace yugawara::variable
