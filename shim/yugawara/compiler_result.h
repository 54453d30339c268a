// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <utility>
#include <vector>
#include <takatori/statement/statement.h>
#include <yugawara/compiled_info.h>
#include <yugawara/compiler_code.h>
#include <yugawara/diagnostic.h>
namespace yugawara {
class compiler_result {
public:
    using diagnostic_type = diagnostic<compiler_code>;
    compiler_result() = default;
    compiler_result(std::unique_ptr<takatori::statement::statement> s, compiled_info i) : s_(std::move(s)), i_(std::move(i)), ok_(true) {}
    explicit compiler_result(std::vector<diagnostic_type> d) : d_(std::move(d)) {}
    [[nodiscard]] bool success() const noexcept { return ok_; }
    [[nodiscard]] takatori::statement::statement& statement() noexcept { return *s_; }
    [[nodiscard]] std::unique_ptr<takatori::statement::statement> release_statement() { return std::move(s_); }
    [[nodiscard]] compiled_info const& info() const noexcept { return i_; }
    [[nodiscard]] std::vector<diagnostic_type> const& diagnostics() const noexcept { return d_; }
private:
    std::unique_ptr<takatori::statement::statement> s_{};
    compiled_info i_{};
    std::vector<diagnostic_type> d_{};
    bool ok_{};
};
}  // namespace yugawara
