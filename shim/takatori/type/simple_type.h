// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/type/data.h>
namespace takatori::type {
template <type_kind Kind>
class simple_type : public data {
public:
    static constexpr type_kind tag = Kind;
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] std::unique_ptr<data> clone() const override { return std::make_unique<simple_type>(*this); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == tag; }
};
}  // namespace takatori::type
