// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <takatori/type/data.h>
namespace takatori::type {
class table : public data {
public:
    static constexpr type_kind tag = type_kind::table;
    class column_type {
    public:
        column_type(std::string name, std::shared_ptr<data const> t) : name_(std::move(name)), type_(std::move(t)) {}
        [[nodiscard]] std::string const& name() const noexcept { return name_; }
        [[nodiscard]] data const& type() const noexcept { return *type_; }
    private:
        std::string name_;
        std::shared_ptr<data const> type_;
    };
    table() = default;
    explicit table(std::vector<column_type> c) : columns_(std::move(c)) {}
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] std::unique_ptr<data> clone() const override { return std::make_unique<table>(*this); }
    [[nodiscard]] std::vector<column_type> const& columns() const noexcept { return columns_; }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override {
        auto* t = dynamic_cast<table const*>(&o);
        if (t == nullptr || t->columns_.size() != columns_.size()) return false;
        for (std::size_t i = 0; i < columns_.size(); ++i) {
            if (columns_[i].name() != t->columns_[i].name() || !(columns_[i].type() == t->columns_[i].type())) return false;
        }
        return true;
    }
private:
    std::vector<column_type> columns_;
};
}  // namespace takatori::type
