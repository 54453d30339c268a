// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <utility>
#include <takatori/value/data.h>
#include <yugawara/function/declaration.h>
#include <yugawara/storage/column_value_kind.h>
#include <yugawara/storage/sequence.h>
namespace yugawara::storage {
class column_value {
public:
    column_value() = default;
    column_value(std::shared_ptr<takatori::value::data const> v) : kind_(column_value_kind::immediate), v_(std::move(v)) {}
    column_value(std::shared_ptr<sequence const> s) : kind_(column_value_kind::sequence), s_(std::move(s)) {}
    column_value(std::shared_ptr<function::declaration const> f) : kind_(column_value_kind::function), f_(std::move(f)) {}
    [[nodiscard]] column_value_kind kind() const noexcept { return kind_; }
    explicit operator bool() const noexcept { return kind_ != column_value_kind::nothing; }
    template <column_value_kind K>
    [[nodiscard]] auto const& element() const {
        if constexpr (K == column_value_kind::immediate) return v_;
        else if constexpr (K == column_value_kind::sequence) return s_;
        else return f_;
    }
private:
    column_value_kind kind_{column_value_kind::nothing};
    std::shared_ptr<takatori::value::data const> v_{};
    std::shared_ptr<sequence const> s_{};
    std::shared_ptr<function::declaration const> f_{};
};
}  // namespace yugawara::storage
