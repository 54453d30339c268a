// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/value/value_kind.h>
namespace takatori::value {
class data {
public:
    data() = default;
    virtual ~data() = default;
    data(data const&) = default;
    data& operator=(data const&) = delete;
    [[nodiscard]] virtual value_kind kind() const noexcept = 0;
};
}  // namespace takatori::value
