// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <cstring>
#include <string>
#include <string_view>
namespace sharksfin {
class Slice {
public:
    constexpr Slice() = default;
    Slice(void const* p, std::size_t n) : d_(static_cast<char const*>(p)), n_(n) {}
    Slice(std::string_view s) : d_(s.data()), n_(s.size()) {}
    Slice(std::string const& s) : d_(s.data()), n_(s.size()) {}
    Slice(char const* s) : d_(s), n_(std::strlen(s)) {}
    template <class T = char>
    [[nodiscard]] T const* data() const { return reinterpret_cast<T const*>(d_); }
    [[nodiscard]] std::size_t size() const { return n_; }
    [[nodiscard]] bool empty() const { return n_ == 0; }
    [[nodiscard]] std::string_view to_string_view() const { return {d_, n_}; }
    [[nodiscard]] std::string to_string() const { return {d_, n_}; }
    void assign_to(std::string& b) const { b.assign(d_, n_); }
    friend bool operator==(Slice a, Slice b) { return a.to_string_view() == b.to_string_view(); }
private:
    char const* d_{};
    std::size_t n_{};
};
}  // namespace sharksfin
