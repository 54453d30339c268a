// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <utility>
namespace takatori::descriptor {
class storage {
public:
    storage() = default;
    explicit storage(std::shared_ptr<void const> e) : e_(std::move(e)) {}
    [[nodiscard]] std::shared_ptr<void const> const& entity() const noexcept { return e_; }
private:
    std::shared_ptr<void const> e_{};
};
}  // namespace takatori::descriptor
