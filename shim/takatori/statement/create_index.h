// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <takatori/descriptor/storage.h>
#include <takatori/statement/statement.h>
namespace takatori::statement {
class create_index : public statement {
public:
    explicit create_index(descriptor::storage d) : d_(std::move(d)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::create_index; }
    [[nodiscard]] descriptor::storage const& definition() const noexcept { return d_; }
private:
    descriptor::storage d_;
};
}  // namespace takatori::statement
