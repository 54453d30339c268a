// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace sharksfin {
class Environment {
public:
    virtual ~Environment() = default;
    virtual void initialize() {}
};
}  // namespace sharksfin
