// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <map>
#include <optional>
#include <string>
#include <string_view>
namespace sharksfin {
class DatabaseOptions {
public:
    enum class OpenMode { RESTORE, CREATE_OR_RESTORE };
    [[nodiscard]] std::optional<std::string> attribute(std::string_view k) const {
        auto it = a_.find(std::string{k});
        if (it == a_.end()) return {};
        return it->second;
    }
    DatabaseOptions& attribute(std::string_view k, std::string_view v) { a_[std::string{k}] = v; return *this; }
private:
    std::map<std::string, std::string> a_{};
};
}  // namespace sharksfin
