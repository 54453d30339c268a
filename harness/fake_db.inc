// a jogasaki database over the fake engine (include after fake_sharksfin.inc)
#include <jogasaki/configuration.h>
#include <jogasaki/constants.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/kvs/storage.h>
#include <jogasaki/kvs/transaction.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/storage/storage_manager.h>
namespace jogasaki::global {
using takatori::util::maybe_shared_ptr;
maybe_shared_ptr<configuration> const& config_pool(maybe_shared_ptr<configuration> arg) {
    static maybe_shared_ptr<configuration> pool = std::make_shared<configuration>();
    if (arg) pool = std::move(arg);
    return pool;
}
memory::page_pool& page_pool(pool_operation) {
    static memory::page_pool p{};
    return p;
}
std::shared_ptr<kvs::database> const& db(std::shared_ptr<kvs::database> arg) {
    static std::shared_ptr<kvs::database> d{};
    if (arg) d = std::move(arg);
    return d;
}
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager> arg) {
    static std::shared_ptr<storage::storage_manager> m = std::make_shared<storage::storage_manager>();
    if (arg) m = std::move(arg);
    return m;
}
}  // namespace jogasaki::global
namespace {
struct Db {
    std::shared_ptr<jogasaki::kvs::database> d;
    Db() {
        fake::reset();
        d = jogasaki::kvs::database::open();
        jogasaki::global::storage_manager(std::make_shared<jogasaki::storage::storage_manager>());
        (void)d->create_storage(jogasaki::system_sequences_name);
    }
    jogasaki::kvs::database& operator*() const { return *d; }
    jogasaki::kvs::database* operator->() const { return d.get(); }
};
}  // namespace
