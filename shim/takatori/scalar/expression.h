// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <memory>
#include <utility>
#include <vector>
#include <takatori/scalar/expression_kind.h>
#include <takatori/util/optional_ptr.h>
namespace takatori::scalar {
class expression {
public:
    expression() = default;
    virtual ~expression() = default;
    expression(expression const&) = delete;
    expression& operator=(expression const&) = delete;
    expression(expression&&) = default;
    expression& operator=(expression&&) = delete;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
};
using expression_ptr = std::shared_ptr<expression const>;
// a list of owned elements which is read as a list of references
template <class T>
class owned_list {
public:
    class iterator {
    public:
        explicit iterator(typename std::vector<std::shared_ptr<T const>>::const_iterator i) : i_(i) {}
        T const& operator*() const { return **i_; }
        iterator& operator++() { ++i_; return *this; }
        bool operator!=(iterator const& o) const { return i_ != o.i_; }
        bool operator==(iterator const& o) const { return i_ == o.i_; }
    private:
        typename std::vector<std::shared_ptr<T const>>::const_iterator i_;
    };
    owned_list() = default;
    owned_list(std::vector<std::shared_ptr<T const>> v) : v_(std::move(v)) {}
    [[nodiscard]] iterator begin() const { return iterator{v_.begin()}; }
    [[nodiscard]] iterator end() const { return iterator{v_.end()}; }
    [[nodiscard]] std::size_t size() const noexcept { return v_.size(); }
    [[nodiscard]] bool empty() const noexcept { return v_.empty(); }
    [[nodiscard]] T const& operator[](std::size_t i) const { return *v_[i]; }
    [[nodiscard]] T const& at(std::size_t i) const { return *v_.at(i); }
private:
    std::vector<std::shared_ptr<T const>> v_{};
};
}  // namespace takatori::scalar
