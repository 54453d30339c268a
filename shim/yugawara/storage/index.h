// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <takatori/relation/sort_direction.h>
#include <yugawara/storage/index_feature.h>
#include <yugawara/storage/table.h>
namespace yugawara::storage {
using sort_direction = takatori::relation::sort_direction;
class index {
public:
    using definition_id_type = std::uint64_t;
    class column_ref {
    public:
        column_ref(storage::column const& c) noexcept : c_(&c) {}
        operator storage::column const&() const noexcept { return *c_; }
        [[nodiscard]] storage::column const& get() const noexcept { return *c_; }
        friend bool operator==(column_ref const& a, storage::column const& b) noexcept { return *a.c_ == b; }
    private:
        storage::column const* c_;
    };
    class key {
    public:
        key(storage::column const& c, takatori::relation::sort_direction d = takatori::relation::sort_direction::ascendant) : c_(&c), d_(d) {}
        [[nodiscard]] storage::column const& column() const noexcept { return *c_; }
        [[nodiscard]] takatori::relation::sort_direction direction() const noexcept { return d_; }
        friend bool operator==(key const& a, key const& b) noexcept { return *a.c_ == *b.c_ && a.d_ == b.d_; }
    private:
        storage::column const* c_;
        takatori::relation::sort_direction d_;
    };
    index(std::optional<definition_id_type> id, std::shared_ptr<storage::table const> t, std::string_view n, std::vector<key> k, std::vector<column_ref> v, index_feature_set f = {}, std::string d = {})
        : id_(id), t_(std::move(t)), n_(n), k_(std::move(k)), v_(std::move(v)), f_(f), d_(std::move(d)) {}
    index(std::shared_ptr<storage::table const> t, std::string_view n, std::vector<key> k, std::vector<column_ref> v, index_feature_set f = {}, std::string d = {})
        : index(std::nullopt, std::move(t), n, std::move(k), std::move(v), f, std::move(d)) {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return n_; }
    index& simple_name(std::string n) noexcept { n_ = std::move(n); return *this; }
    [[nodiscard]] storage::table const& table() const noexcept { return *t_; }
    [[nodiscard]] std::shared_ptr<storage::table const> const& shared_table() const noexcept { return t_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return k_; }
    [[nodiscard]] std::vector<key>& keys() noexcept { return k_; }
    [[nodiscard]] std::vector<column_ref> const& values() const noexcept { return v_; }
    [[nodiscard]] std::vector<column_ref>& values() noexcept { return v_; }
    [[nodiscard]] index_feature_set const& features() const noexcept { return f_; }
    [[nodiscard]] index_feature_set& features() noexcept { return f_; }
    [[nodiscard]] std::string_view description() const noexcept { return d_; }
    friend bool operator==(index const& a, index const& b) noexcept { return &a == &b; }
    friend bool operator!=(index const& a, index const& b) noexcept { return &a != &b; }
private:
    std::optional<definition_id_type> id_;
    std::shared_ptr<storage::table const> t_;
    std::string n_;
    std::vector<key> k_;
    std::vector<column_ref> v_;
    index_feature_set f_;
    std::string d_;
};
}  // namespace yugawara::storage
#include <yugawara/storage/provider.h>
