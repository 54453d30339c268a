// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <string>
#include <takatori/document/region.h>
namespace yugawara {
template <class Code>
class diagnostic {
public:
    diagnostic(Code c, std::string m, takatori::document::region r = {}) : c_(c), m_(std::move(m)), r_(r) {}
    [[nodiscard]] Code code() const noexcept { return c_; }
    [[nodiscard]] std::string const& message() const noexcept { return m_; }
    [[nodiscard]] takatori::document::region const& location() const noexcept { return r_; }
private:
    Code c_;
    std::string m_;
    takatori::document::region r_;
};
}  // namespace yugawara
