// large objects are not used by the harness
#include <jogasaki/datastore/assign_lob_id.h>
#include <jogasaki/datastore/find_path_by_lob_id.h>
#include <jogasaki/datastore/register_lob.h>
#include <jogasaki/relay/blob_session_container.h>
#include <jogasaki/transaction_context.h>
#include <jogasaki/utils/assign_reference_tag.h>
#include <jogasaki/utils/read_lob_file.h>
namespace jogasaki {
namespace datastore {
status register_lob_data(std::string_view, transaction_context*, lob::lob_id_type&, std::shared_ptr<error::error_info>&) { std::abort(); }
status find_path_by_lob_id(lob::lob_id_type, std::string&, std::shared_ptr<error::error_info>&) { std::abort(); }
status assign_lob_id(lob::lob_reference const&, transaction_context*, lob::lob_id_type&, std::shared_ptr<error::error_info>&) { std::abort(); }
}  // namespace datastore
namespace utils {
std::optional<lob::lob_reference_tag_type> assign_reference_tag(std::uint64_t, lob::lob_id_type) { std::abort(); }
status read_lob_file(std::string_view, std::string&, std::shared_ptr<error::error_info>&) { std::abort(); }
}  // namespace utils
std::size_t transaction_context::surrogate_id() const noexcept { std::abort(); }
namespace relay {
template<> data_relay_grpc::common::blob_session* basic_blob_session_container<data_relay_grpc::common::blob_session>::get_or_create() { std::abort(); }
}  // namespace relay
}  // namespace jogasaki
