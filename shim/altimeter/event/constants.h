// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <string_view>
namespace altimeter::event {
inline constexpr std::string_view category = "event";
namespace level { inline constexpr std::uint32_t min = 10, transaction = 20, statement = 30; }
namespace type {
inline constexpr std::string_view tx_start = "tx_start", tx_end = "tx_end", stmt_start = "stmt_start", stmt_end = "stmt_end", stmt_explain = "stmt_explain";
}
namespace item {
inline constexpr std::string_view dbname = "dbname", pid = "pid", instance_id = "instance_id", remote_host = "remote_host", application_name = "application_name",
    session_label = "session_label", session_id = "session_id", user = "user", message = "message", tx_id = "tx_id", tx_type = "tx_type", tx_label = "tx_label",
    result = "result", duration_time = "duration_time", job_id = "job_id", statement = "statement", parameter = "parameter", state_code = "state_code",
    fetched = "fetched", inserted = "inserted", updated = "updated", deleted = "deleted", merged = "merged", data = "data";
}
}  // namespace altimeter::event
