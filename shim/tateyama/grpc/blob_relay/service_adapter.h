// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
namespace data_relay_grpc::blob_relay { class blob_relay_service; }
namespace tateyama::grpc::blob_relay {
class service_adapter {
public:
    explicit service_adapter(std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> s = nullptr) : service_(std::move(s)) {}
    [[nodiscard]] std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> blob_relay_service() const { return service_; }

private:
    std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> service_;
};
}  // namespace tateyama::grpc::blob_relay
