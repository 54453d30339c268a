// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <cstdint>
#include <filesystem>
#include <map>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
namespace tateyama::api::configuration {

/// the settings of one section, as text; reading a text as a type it does not spell throws, as the server does
class section {
public:
    template <class T>
    [[nodiscard]] std::optional<T> get(std::string_view name) const {
        auto it = values_.find(name);
        if (it == values_.end()) return std::nullopt;
        auto const& v = it->second;
        if constexpr (std::is_same_v<T, bool>) {
            if (v == "true" || v == "1") return true;
            if (v == "false" || v == "0") return false;
            throw std::runtime_error("invalid boolean: " + v);
        } else if constexpr (std::is_integral_v<T>) {
            bool negative = std::is_signed_v<T> && !v.empty() && v[0] == '-';
            auto digits = negative ? v.substr(1) : v;
            if (digits.empty() || digits.size() > 19 || digits.find_first_not_of("0123456789") != std::string::npos) throw std::runtime_error("invalid number: " + v);
            auto n = std::stoull(digits);
            return static_cast<T>(negative ? 0 - n : n);
        } else {
            return T(v);
        }
    }
    void set(std::string name, std::string value) { values_.insert_or_assign(std::move(name), std::move(value)); }

private:
    std::map<std::string, std::string, std::less<>> values_{};
};

class whole {
public:
    [[nodiscard]] section* get_section(std::string_view name) {
        auto it = sections_.find(name);
        return it == sections_.end() ? nullptr : &it->second;
    }
    section& add(std::string name) { return sections_[std::move(name)]; }

private:
    std::map<std::string, section, std::less<>> sections_{};
};
}  // namespace tateyama::api::configuration
