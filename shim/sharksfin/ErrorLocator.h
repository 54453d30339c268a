// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <sharksfin/StatusCode.h>
namespace sharksfin {
class ErrorLocator {
public:
    virtual ~ErrorLocator() = default;
    [[nodiscard]] virtual ErrorLocatorKind kind() const noexcept = 0;
};
class StorageKeyErrorLocator : public ErrorLocator {
public:
    StorageKeyErrorLocator(std::optional<std::string> key, std::optional<std::string> storage) : key_(std::move(key)), storage_(std::move(storage)) {}
    [[nodiscard]] ErrorLocatorKind kind() const noexcept override { return ErrorLocatorKind::storage_key; }
    [[nodiscard]] std::optional<std::string_view> key() const noexcept { return key_ ? std::optional<std::string_view>{*key_} : std::nullopt; }
    [[nodiscard]] std::optional<std::string_view> storage() const noexcept { return storage_ ? std::optional<std::string_view>{*storage_} : std::nullopt; }
private:
    std::optional<std::string> key_;
    std::optional<std::string> storage_;
};
}  // namespace sharksfin
