// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <utility>
#include <vector>
#include <takatori/descriptor/storage.h>
#include <takatori/statement/details/table_authorization_entry.h>
#include <takatori/statement/details/table_privilege_action.h>
namespace takatori::statement::details {
class table_privilege_element {
public:
    table_privilege_element(descriptor::storage t, std::vector<table_privilege_action> d, std::vector<table_authorization_entry> a) : t_(std::move(t)), d_(std::move(d)), a_(std::move(a)) {}
    [[nodiscard]] descriptor::storage const& table() const noexcept { return t_; }
    [[nodiscard]] std::vector<table_privilege_action> const& default_privileges() const noexcept { return d_; }
    [[nodiscard]] std::vector<table_authorization_entry> const& authorization_entries() const noexcept { return a_; }
private:
    descriptor::storage t_;
    std::vector<table_privilege_action> d_;
    std::vector<table_authorization_entry> a_;
};
}  // namespace takatori::statement::details
