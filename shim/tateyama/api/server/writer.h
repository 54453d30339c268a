// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <tateyama/status.h>
namespace tateyama::api::server {
class writer {
public:
    virtual ~writer() = default;
    virtual tateyama::status write(char const* data, std::size_t length) = 0;
    virtual tateyama::status commit() = 0;
};
}  // namespace tateyama::api::server
