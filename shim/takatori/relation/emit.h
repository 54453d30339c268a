// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
namespace takatori::relation {
class emit : public expression {
public:
    class column {
    public:
        explicit column(descriptor::variable s, std::optional<std::string> n = {}) : s_(std::move(s)), n_(std::move(n)) {}
        [[nodiscard]] descriptor::variable const& source() const noexcept { return s_; }
        [[nodiscard]] std::optional<std::string> const& name() const noexcept { return n_; }
    private:
        descriptor::variable s_;
        std::optional<std::string> n_;
    };
    explicit emit(std::vector<column> c) : expression(1, 0), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::emit; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    std::vector<column> c_;
};
}  // namespace takatori::relation
