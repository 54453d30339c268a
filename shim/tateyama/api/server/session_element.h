// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace tateyama::api::server {
class session_element {
public:
    session_element() = default;
    virtual ~session_element() = default;
    session_element(session_element const&) = delete;
    session_element& operator=(session_element const&) = delete;
    session_element(session_element&&) = delete;
    session_element& operator=(session_element&&) = delete;
    virtual void dispose() = 0;
};
}  // namespace tateyama::api::server
