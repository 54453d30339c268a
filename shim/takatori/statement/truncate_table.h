// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <takatori/descriptor/storage.h>
#include <takatori/statement/statement.h>
#include <takatori/statement/truncate_table_option_kind.h>
namespace takatori::statement {
class truncate_table : public statement {
public:
    explicit truncate_table(descriptor::storage d, truncate_table_option_kind_set o = {}) : d_(std::move(d)), o_(o) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::truncate_table; }
    [[nodiscard]] descriptor::storage const& target() const noexcept { return d_; }
    [[nodiscard]] truncate_table_option_kind_set const& options() const noexcept { return o_; }
private:
    descriptor::storage d_;
    truncate_table_option_kind_set o_;
};
}  // namespace takatori::statement
