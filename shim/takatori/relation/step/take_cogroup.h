// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/details/mapping_element.h>
#include <takatori/relation/details/search_key_element.h>
#include <takatori/relation/expression.h>
namespace takatori::relation::step {
class take_cogroup : public expression {
public:
    using column = details::mapping_element;
    class group {
    public:
        group(descriptor::relation s, std::vector<column> c) : s_(std::move(s)), c_(std::move(c)) {}
        [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
        [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    private:
        descriptor::relation s_;
        std::vector<column> c_;
    };
    explicit take_cogroup(std::vector<group> g) : expression(0, 1), g_(std::move(g)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::take_cogroup; }
    [[nodiscard]] std::vector<group> const& groups() const noexcept { return g_; }
private:
    std::vector<group> g_;
};
}  // namespace takatori::relation::step
