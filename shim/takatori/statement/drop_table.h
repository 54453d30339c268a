// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <takatori/descriptor/storage.h>
#include <takatori/statement/statement.h>
namespace takatori::statement {
class drop_table : public statement {
public:
    explicit drop_table(descriptor::storage d) : d_(std::move(d)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::drop_table; }
    [[nodiscard]] descriptor::storage const& target() const noexcept { return d_; }
private:
    descriptor::storage d_;
};
}  // namespace takatori::statement
