// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <utility>
#include <takatori/util/reference_vector.h>
#include <yugawara/storage/column.h>
namespace yugawara::storage {
class provider;
class table;
using relation = table;
class table {
public:
    using definition_id_type = std::uint64_t;
    using column_vector_type = takatori::util::reference_vector<column>;
    explicit table(std::string n) : n_(std::move(n)) {}
    table(std::optional<definition_id_type> id, std::string n, column_vector_type c, std::string d = {}) : id_(id), n_(std::move(n)), c_(std::move(c)), d_(std::move(d)) {}
    table(std::string_view n, std::initializer_list<column> c, std::string d = {}) : n_(n), c_(c), d_(std::move(d)) {}
    table(table const&) = delete;
    table& operator=(table const&) = delete;
    table(table&&) = default;
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return n_; }
    [[nodiscard]] std::string_view description() const noexcept { return d_; }
    [[nodiscard]] column_vector_type& columns() noexcept { return c_; }
    [[nodiscard]] column_vector_type const& columns() const noexcept { return c_; }
    friend bool operator==(table const& a, table const& b) noexcept { return &a == &b; }
    friend bool operator!=(table const& a, table const& b) noexcept { return &a != &b; }
    [[nodiscard]] provider const* owner() const noexcept { return o_; }
    void owner(provider const* o) noexcept { o_ = o; }
private:
    std::optional<definition_id_type> id_{};
    std::string n_;
    column_vector_type c_{};
    std::string d_{};
    provider const* o_{};
};
}  // namespace yugawara::storage
#include <yugawara/storage/provider.h>
