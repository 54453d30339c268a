// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <takatori/descriptor/variable.h>
namespace takatori::relation::details {
class mapping_element {
public:
    mapping_element(descriptor::variable s, descriptor::variable d) : s_(std::move(s)), d_(std::move(d)) {}
    [[nodiscard]] descriptor::variable const& source() const noexcept { return s_; }
    [[nodiscard]] descriptor::variable const& destination() const noexcept { return d_; }
private:
    descriptor::variable s_, d_;
};
}  // namespace takatori::relation::details
