// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <limits>
#include <optional>
#include <string>
namespace yugawara::storage {
class sequence {
public:
    using definition_id_type = std::uint64_t;
    using value_type = std::int64_t;
    static constexpr value_type default_initial_value = 0, default_increment_value = 1, default_min_value = 0, default_max_value = std::numeric_limits<value_type>::max();
    static constexpr bool default_cycle = true;
    sequence(std::optional<definition_id_type> id, std::string name, value_type init = 0, value_type inc = 1, value_type min = 0,
        value_type max = std::numeric_limits<value_type>::max(), bool cycle = true, std::string d = {})
        : id_(id), name_(std::move(name)), init_(init), inc_(inc), min_(min), max_(max), cycle_(cycle), d_(std::move(d)) {}
    explicit sequence(std::string name, value_type init = 0, value_type inc = 1, value_type min = 0,
        value_type max = std::numeric_limits<value_type>::max(), bool cycle = true, std::string d = {})
        : sequence(std::nullopt, std::move(name), init, inc, min, max, cycle, std::move(d)) {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    sequence& definition_id(std::optional<definition_id_type> id) noexcept { id_ = id; return *this; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] value_type initial_value() const noexcept { return init_; }
    [[nodiscard]] value_type increment_value() const noexcept { return inc_; }
    [[nodiscard]] value_type min_value() const noexcept { return min_; }
    [[nodiscard]] value_type max_value() const noexcept { return max_; }
    [[nodiscard]] bool cycle() const noexcept { return cycle_; }
    [[nodiscard]] std::string_view description() const noexcept { return d_; }
private:
    std::optional<definition_id_type> id_;
    std::string name_;
    value_type init_, inc_, min_, max_;
    bool cycle_;
    std::string d_;
};
}  // namespace yugawara::storage
