// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <utility>
#include <yugawara/analyzer/index_estimator.h>
#include <yugawara/restricted_feature.h>
#include <yugawara/runtime_feature.h>
#include <yugawara/storage/prototype_processor.h>
namespace yugawara {
class compiler_options {
public:
    compiler_options(runtime_feature_set f = {}, std::shared_ptr<storage::prototype_processor> sp = {}, std::shared_ptr<analyzer::index_estimator> i = {}) : f_(f), sp_(std::move(sp)), i_(std::move(i)) {}
    [[nodiscard]] runtime_feature_set& runtime_features() noexcept { return f_; }
    [[nodiscard]] restricted_feature_set& restricted_features() noexcept { return r_; }
    [[nodiscard]] bool& enable_disjunction_range_hinting() noexcept { return h_; }
    [[nodiscard]] std::shared_ptr<storage::prototype_processor> const& storage_processor() const noexcept { return sp_; }
private:
    runtime_feature_set f_;
    restricted_feature_set r_{};
    std::shared_ptr<storage::prototype_processor> sp_;
    std::shared_ptr<analyzer::index_estimator> i_;
    bool h_{};
};
}  // namespace yugawara
