// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <memory>
#include <string_view>
namespace yugawara::storage {
class index;
class sequence;
class table;
class provider {
public:
    virtual ~provider() = default;
    using index_consumer_type = std::function<void(std::string_view, std::shared_ptr<index const> const&)>;
    [[nodiscard]] virtual std::shared_ptr<index const> find_primary_index(table const& t) const = 0;
    [[nodiscard]] virtual std::shared_ptr<index const> find_index(std::string_view n) const = 0;
    [[nodiscard]] virtual std::shared_ptr<table const> find_table(std::string_view n) const = 0;
    [[nodiscard]] virtual std::shared_ptr<sequence const> find_sequence(std::string_view n) const = 0;
    virtual void each_table_index(table const& t, index_consumer_type const& f) const = 0;
};
}  // namespace yugawara::storage
