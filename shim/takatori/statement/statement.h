// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <any>
#include <ostream>
#include <takatori/statement/statement_kind.h>
namespace takatori::statement {
class statement {
public:
    statement() = default;
    statement(statement const&) = delete;
    statement& operator=(statement const&) = delete;
    virtual ~statement() = default;
    [[nodiscard]] virtual statement_kind kind() const noexcept { return statement_kind::extension; }
    [[nodiscard]] std::any& runtime_hint() noexcept { return hint_; }
    [[nodiscard]] std::any const& runtime_hint() const noexcept { return hint_; }
    friend std::ostream& operator<<(std::ostream& o, statement const& s) { return o << s.kind(); }
private:
    std::any hint_{};
};
}  // namespace takatori::statement
