// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <tateyama/api/server/writer.h>
#include <tateyama/status.h>
namespace tateyama::api::server {
class data_channel {
public:
    virtual ~data_channel() = default;
    virtual tateyama::status acquire(std::shared_ptr<writer>& wrt) = 0;
    virtual tateyama::status release(writer& wrt) = 0;
};
}  // namespace tateyama::api::server
