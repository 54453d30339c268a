// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <string>
#include <string_view>
namespace sharksfin {
class TransactionInfo {
public:
    TransactionInfo() = default;
    explicit TransactionInfo(std::string id) : id_(std::move(id)) {}
    [[nodiscard]] std::string_view id() const noexcept { return id_; }
private:
    std::string id_{};
};
}  // namespace sharksfin
