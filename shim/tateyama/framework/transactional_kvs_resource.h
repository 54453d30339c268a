// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <sharksfin/api.h>
namespace tateyama::framework {
class transactional_kvs_resource {
public:
    explicit transactional_kvs_resource(sharksfin::DatabaseHandle h = nullptr) : handle_(h) {}
    [[nodiscard]] sharksfin::DatabaseHandle core_object() const noexcept { return handle_; }

private:
    sharksfin::DatabaseHandle handle_;
};
}  // namespace tateyama::framework
