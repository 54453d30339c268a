// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <string_view>
namespace tateyama::framework {
class environment;
class component {
public:
    using id_type = std::size_t;
    virtual ~component() = default;
    virtual bool setup(environment&) = 0;
    virtual bool start(environment&) = 0;
    virtual bool shutdown(environment&) = 0;
    [[nodiscard]] virtual std::string_view label() const noexcept = 0;
};
}
