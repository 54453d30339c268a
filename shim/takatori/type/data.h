// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <ostream>
#include <takatori/type/type_kind.h>
namespace takatori::type {
class data {
public:
    data() = default;
    virtual ~data() = default;
    data(data const&) = default;
    data& operator=(data const&) = delete;
    [[nodiscard]] virtual type_kind kind() const noexcept = 0;
    [[nodiscard]] virtual std::unique_ptr<data> clone() const = 0;
    friend bool operator==(data const& a, data const& b) noexcept { return a.equals(b); }
    friend bool operator!=(data const& a, data const& b) noexcept { return !a.equals(b); }
    friend std::ostream& operator<<(std::ostream& o, data const& d) { return o << d.kind(); }
protected:
    [[nodiscard]] virtual bool equals(data const& o) const noexcept = 0;
};
}  // namespace takatori::type
