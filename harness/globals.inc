// process-wide objects of the database that the code under test asks for
namespace jogasaki::global {
using takatori::util::maybe_shared_ptr;
maybe_shared_ptr<configuration> const& config_pool(maybe_shared_ptr<configuration> arg) {
    static maybe_shared_ptr<configuration> pool = std::make_shared<configuration>();
    if (arg) pool = std::move(arg);
    return pool;
}
memory::page_pool& page_pool(pool_operation) {
    static memory::page_pool p{};
    return p;
}
}  // namespace jogasaki::global
