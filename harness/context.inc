// A request context of which only the configuration is ever asked for.
#include <jogasaki/request_context.h>
namespace jogasaki {
namespace {
std::shared_ptr<class configuration> ctx_config = std::make_shared<class configuration>();
alignas(request_context) char ctx_memory[sizeof(request_context)];
inline request_context* the_context() { return reinterpret_cast<request_context*>(ctx_memory); }
status ctx_status = status::ok;
}
status request_context::status_code() const noexcept { return ctx_status; }
std::shared_ptr<class configuration> const& request_context::configuration() const { return ctx_config; }
}  // namespace jogasaki
