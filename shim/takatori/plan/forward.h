// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <optional>
#include <utility>
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/plan/exchange.h>
namespace takatori::plan {
class forward : public exchange {
public:
    explicit forward(std::vector<descriptor::variable> c = {}, std::optional<std::size_t> l = {}) : c_(std::move(c)), l_(l) {}
    [[nodiscard]] step_kind kind() const noexcept override { return step_kind::forward; }
    [[nodiscard]] std::vector<descriptor::variable> const& columns() const noexcept { return c_; }
    [[nodiscard]] std::optional<std::size_t> const& limit() const noexcept { return l_; }
private:
    std::vector<descriptor::variable> c_;
    std::optional<std::size_t> l_;
};
}  // namespace takatori::plan
