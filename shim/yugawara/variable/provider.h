// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace yugawara::variable {
class provider {
public:
    virtual ~provider() = default;
};
}  // namespace yugawara::variable
