// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <tateyama/framework/component.h>
namespace tateyama::framework {
class resource : public component {
public:
    [[nodiscard]] virtual id_type id() const noexcept = 0;
};
}
