// error_info_factory refers to requests and transactions, which the harness never has
#include <jogasaki/request_context.h>
#include <jogasaki/transaction_context.h>
namespace jogasaki {
bool request_context::status_code(status, std::string_view) noexcept { std::abort(); }
bool request_context::error_info(std::shared_ptr<error::error_info> const&) noexcept { std::abort(); }
std::shared_ptr<transaction_context> const& request_context::transaction() const { std::abort(); }
bool transaction_context::error_info(std::shared_ptr<error::error_info> const&) noexcept { std::abort(); }
}  // namespace jogasaki
