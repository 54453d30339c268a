// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <optional>
#include <utility>
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/plan/exchange.h>
#include <takatori/plan/group_mode.h>
#include <takatori/relation/sort_direction.h>
namespace takatori::plan {
class group : public exchange {
public:
    class sort_key {
    public:
        sort_key(descriptor::variable v, relation::sort_direction d) : v_(std::move(v)), d_(d) {}
        [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
        [[nodiscard]] relation::sort_direction direction() const noexcept { return d_; }
    private:
        descriptor::variable v_;
        relation::sort_direction d_;
    };
    group(std::vector<descriptor::variable> k, group_mode m) : k_(std::move(k)), m_(m) {}
    group(std::vector<descriptor::variable> c, std::vector<descriptor::variable> k, std::vector<sort_key> s, std::optional<std::size_t> l, group_mode m)
        : c_(std::move(c)), k_(std::move(k)), s_(std::move(s)), l_(l), m_(m) {}
    [[nodiscard]] step_kind kind() const noexcept override { return step_kind::group; }
    [[nodiscard]] std::vector<descriptor::variable> const& columns() const noexcept { return c_; }
    [[nodiscard]] std::vector<descriptor::variable> const& group_keys() const noexcept { return k_; }
    [[nodiscard]] std::vector<sort_key> const& sort_keys() const noexcept { return s_; }
    [[nodiscard]] std::optional<std::size_t> const& limit() const noexcept { return l_; }
    [[nodiscard]] group_mode mode() const noexcept { return m_; }
private:
    std::vector<descriptor::variable> c_{}, k_;
    std::vector<sort_key> s_{};
    std::optional<std::size_t> l_{};
    group_mode m_;
};
}  // namespace takatori::plan
