// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <vector>
#include <memory>
#include <yugawara/schema/declaration.h>
namespace yugawara::schema {
class search_path {
public:
    search_path(std::vector<std::shared_ptr<declaration const>> e) : e_(std::move(e)) {}
private:
    std::vector<std::shared_ptr<declaration const>> e_;
};
}  // namespace yugawara::schema
