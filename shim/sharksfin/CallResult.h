// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <string>
#include <string_view>
#include <sharksfin/ErrorLocator.h>
namespace sharksfin {
class CallResult {
public:
    CallResult() = default;
    CallResult(ErrorCode result, std::shared_ptr<ErrorLocator> location, std::string desc) : result_(result), location_(std::move(location)), desc_(std::move(desc)) {}
    [[nodiscard]] std::shared_ptr<ErrorLocator> const& location() const noexcept { return location_; }
    [[nodiscard]] ErrorCode result() const noexcept { return result_; }
    [[nodiscard]] ErrorCode code() const noexcept { return result_; }
    [[nodiscard]] std::string_view description() const noexcept { return desc_; }
private:
    ErrorCode result_{};
    std::shared_ptr<ErrorLocator> location_{};
    std::string desc_{};
};
}  // namespace sharksfin
