#pragma once
#include <sstream>
#include <string>
#include <utility>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t {};
    static constexpr to_string_t to_string{};
    template <class T>
    string_builder& operator<<(T&& v) & {
        ss_ << std::forward<T>(v);
        return *this;
    }
    template <class T>
    string_builder&& operator<<(T&& v) && {
        ss_ << std::forward<T>(v);
        return std::move(*this);
    }
    std::string operator<<(to_string_t) & { return ss_.str(); }
    std::string operator<<(to_string_t) && { return ss_.str(); }
    [[nodiscard]] std::string str() const { return ss_.str(); }
    std::stringstream& buffer() { return ss_; }

private:
    std::stringstream ss_{};
};
}  // namespace takatori::util
