// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <takatori/statement/statement.h>
namespace takatori::statement {
class empty : public statement {
public:
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::empty; }
};
}  // namespace takatori::statement
