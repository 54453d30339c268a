// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <tateyama/framework/component.h>
namespace tateyama::api::server { class request; class response; }
namespace tateyama::framework {
using request = tateyama::api::server::request;
using response = tateyama::api::server::response;
class service : public component {
public:
    [[nodiscard]] virtual id_type id() const noexcept = 0;
    virtual bool operator()(std::shared_ptr<request> req, std::shared_ptr<response> res) = 0;
};
}
