// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <takatori/descriptor/storage.h>
#include <takatori/statement/statement.h>
namespace takatori::statement {
class create_table : public statement {
public:
    create_table(descriptor::storage d, descriptor::storage p) : d_(std::move(d)), p_(std::move(p)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::create_table; }
    [[nodiscard]] descriptor::storage const& definition() const noexcept { return d_; }
    [[nodiscard]] descriptor::storage const& primary_key() const noexcept { return p_; }
private:
    descriptor::storage d_, p_;
};
}  // namespace takatori::statement
