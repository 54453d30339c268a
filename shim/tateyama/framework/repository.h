// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <map>
#include <memory>
#include <typeindex>
namespace tateyama::framework {
class repository {
public:
    template <class T>
    [[nodiscard]] std::shared_ptr<T> find() const {
        auto it = all_.find(std::type_index(typeid(T)));
        return it == all_.end() ? nullptr : std::static_pointer_cast<T>(it->second);
    }
    template <class T>
    void add(std::shared_ptr<T> x) { all_[std::type_index(typeid(T))] = std::move(x); }

private:
    std::map<std::type_index, std::shared_ptr<void>> all_{};
};
}  // namespace tateyama::framework
