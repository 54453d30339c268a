// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/function.h>
#include <takatori/descriptor/variable.h>
#include <takatori/plan/exchange.h>
#include <takatori/plan/group_mode.h>
#include <takatori/relation/step/aggregate.h>
namespace takatori::plan {
class aggregate : public exchange {
public:
    using aggregation = relation::step::aggregate::column;
    aggregate(std::vector<descriptor::variable> k, group_mode m) : k_(std::move(k)), m_(m) {}
    aggregate(std::vector<descriptor::variable> s, std::vector<descriptor::variable> d, std::vector<descriptor::variable> k, std::vector<aggregation> a, group_mode m)
        : s_(std::move(s)), d_(std::move(d)), k_(std::move(k)), a_(std::move(a)), m_(m) {}
    [[nodiscard]] step_kind kind() const noexcept override { return step_kind::aggregate; }
    [[nodiscard]] std::vector<descriptor::variable> const& source_columns() const noexcept { return s_; }
    [[nodiscard]] std::vector<descriptor::variable> const& destination_columns() const noexcept { return d_; }
    [[nodiscard]] std::vector<descriptor::variable> const& group_keys() const noexcept { return k_; }
    [[nodiscard]] std::vector<aggregation> const& aggregations() const noexcept { return a_; }
    [[nodiscard]] group_mode mode() const noexcept { return m_; }
private:
    std::vector<descriptor::variable> s_{}, d_{}, k_;
    std::vector<aggregation> a_{};
    group_mode m_;
};
}  // namespace takatori::plan
