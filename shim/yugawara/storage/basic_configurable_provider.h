// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include <yugawara/storage/index.h>
#include <yugawara/storage/provider.h>
#include <yugawara/storage/sequence.h>
#include <yugawara/storage/table.h>
namespace yugawara::storage {
template <class Mutex>
class basic_configurable_provider : public provider {
    template <class T>
    using map_type = std::map<std::string, std::shared_ptr<T const>, std::less<>>;
public:
    using sequence_consumer_type = std::function<void(std::string_view, std::shared_ptr<sequence const> const&)>;
    using relation_consumer_type = std::function<void(std::string_view, std::shared_ptr<table const> const&)>;
    void each_sequence(sequence_consumer_type const& f) const { each(sequences_, f); }
    void each_relation(relation_consumer_type const& f) const { each(tables_, f); }
    void each_index(index_consumer_type const& f) const { each(indices_, f); }
    std::shared_ptr<sequence const> add_sequence(std::shared_ptr<sequence const> s, bool overwrite = false) { return add(sequences_, std::move(s), overwrite); }
    template <class T>
    std::shared_ptr<T> add_table(std::shared_ptr<T> t, bool overwrite = false) {
        add(tables_, std::shared_ptr<table const>{t}, overwrite);
        const_cast<table&>(static_cast<table const&>(*t)).owner(this);
        return t;
    }
    std::shared_ptr<table> add_table(table&& t, bool overwrite = false) { return add_table(std::make_shared<table>(std::move(t)), overwrite); }
    std::shared_ptr<index const> add_index(index&& i, bool overwrite = false) { return add_index(std::make_shared<index const>(std::move(i)), overwrite); }
    std::shared_ptr<index const> add_index(std::shared_ptr<index const> i, bool overwrite = false) { return add(indices_, std::move(i), overwrite); }
    bool remove_sequence(std::string_view n) { return remove(sequences_, n); }
    bool remove_relation(std::string_view n) { return remove(tables_, n); }
    bool remove_index(std::string_view n) { return remove(indices_, n); }
    [[nodiscard]] std::shared_ptr<table const> find_table(std::string_view n) const override { return find(tables_, n); }
    [[nodiscard]] std::shared_ptr<index const> find_index(std::string_view n) const override { return find(indices_, n); }
    [[nodiscard]] std::shared_ptr<sequence const> find_sequence(std::string_view n) const override { return find(sequences_, n); }
    // the primary index has the name of its table
    [[nodiscard]] std::shared_ptr<index const> find_primary_index(table const& t) const override {
        auto i = find_index(t.simple_name());
        return i && i->table().simple_name() == t.simple_name() ? i : nullptr;
    }
    void each_table_index(table const& t, index_consumer_type const& f) const override {
        for (auto&& [n, i] : indices_)
            if (i->table().simple_name() == t.simple_name()) f(n, i);
    }
private:
    map_type<sequence> sequences_{};
    map_type<table> tables_{};
    map_type<index> indices_{};
    mutable std::mutex m_{};
    template <class T>
    std::shared_ptr<T const> add(map_type<T>& m, std::shared_ptr<T const> e, bool overwrite) {
        std::unique_lock lk{m_};
        std::string k{e->simple_name()};
        if (!overwrite && m.count(k)) throw std::invalid_argument("already exists: " + k);
        return m[k] = std::move(e);
    }
    template <class T>
    bool remove(map_type<T>& m, std::string_view n) {
        std::unique_lock lk{m_};
        auto it = m.find(n);
        if (it == m.end()) return false;
        m.erase(it);
        return true;
    }
    template <class T>
    std::shared_ptr<T const> find(map_type<T> const& m, std::string_view n) const {
        std::unique_lock lk{m_};
        auto it = m.find(n);
        return it == m.end() ? nullptr : it->second;
    }
    template <class T, class F>
    void each(map_type<T> const& m, F const& f) const {
        map_type<T> copy;
        {
            std::unique_lock lk{m_};
            copy = m;
        }
        for (auto&& [k, v] : copy) f(k, v);
    }
};
}  // namespace yugawara::storage
