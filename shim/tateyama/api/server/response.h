// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <memory>
#include <string_view>
#include <tateyama/api/server/blob_info.h>
#include <tateyama/api/server/data_channel.h>
#include <tateyama/status.h>
#ifdef VERIF_DIAGNOSTICS
#include <tateyama/proto/diagnostics.pb.h>
#else
namespace tateyama::proto::diagnostics { class Record; }
#endif
namespace tateyama::api::server {
class response {
public:
    virtual ~response() = default;
    virtual void session_id(std::size_t) {}
    virtual tateyama::status body_head(std::string_view) { return tateyama::status::unknown; }
    virtual tateyama::status body(std::string_view) { return tateyama::status::unknown; }
    virtual void error(proto::diagnostics::Record const&) {}
    virtual tateyama::status acquire_channel(std::string_view, std::shared_ptr<data_channel>&, std::size_t) { return tateyama::status::unknown; }
    virtual tateyama::status release_channel(data_channel&) { return tateyama::status::unknown; }
    virtual tateyama::status add_blob(std::unique_ptr<blob_info>) { return tateyama::status::unknown; }
    [[nodiscard]] virtual bool check_cancel() const { return false; }
};
}  // namespace tateyama::api::server
