// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <tateyama/api/configuration.h>
#include <tateyama/framework/boot_mode.h>
#include <tateyama/framework/repository.h>
namespace tateyama::framework {
class environment {
public:
    void mode(boot_mode m) { mode_ = m; }
    [[nodiscard]] boot_mode mode() const { return mode_; }
    void configuration(std::shared_ptr<api::configuration::whole> c) { configuration_ = std::move(c); }
    [[nodiscard]] std::shared_ptr<api::configuration::whole> const& configuration() const { return configuration_; }
    [[nodiscard]] repository& resource_repository() { return resources_; }

private:
    boot_mode mode_{};
    std::shared_ptr<api::configuration::whole> configuration_{};
    repository resources_{};
};
}  // namespace tateyama::framework
