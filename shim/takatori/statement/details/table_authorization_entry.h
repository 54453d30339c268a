// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <string>
#include <utility>
#include <vector>
#include <takatori/statement/authorization_user_kind.h>
#include <takatori/statement/details/table_privilege_action.h>
namespace takatori::statement::details {
class table_authorization_entry {
public:
    table_authorization_entry(authorization_user_kind k, std::string n, std::vector<table_privilege_action> p) : k_(k), n_(std::move(n)), p_(std::move(p)) {}
    [[nodiscard]] authorization_user_kind user_kind() const noexcept { return k_; }
    [[nodiscard]] std::string const& authorization_identifier() const noexcept { return n_; }
    [[nodiscard]] std::vector<table_privilege_action> const& privileges() const noexcept { return p_; }
private:
    authorization_user_kind k_;
    std::string n_;
    std::vector<table_privilege_action> p_;
};
}  // namespace takatori::statement::details
