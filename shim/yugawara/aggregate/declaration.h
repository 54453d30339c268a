// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <takatori/type/data.h>
namespace yugawara::aggregate {
class declaration {
public:
    using definition_id_type = std::size_t;
    static constexpr definition_id_type minimum_builtin_function_id = 10'000;
    static constexpr std::string_view name_suffix_distinct{"$distinct"};
    // a type given by value
    struct type_arg {
        type_arg(takatori::type::data const& d) : p(d.clone()) {}
        std::shared_ptr<takatori::type::data const> p;
    };
    declaration(definition_id_type id, std::string name, type_arg r, std::vector<type_arg> const& args, bool incremental = false)
        : id_(id), name_(std::move(name)), return_(std::move(r.p)), incremental_(incremental) {
        for (auto&& a : args) args_.push_back(a.p);
    }
    [[nodiscard]] definition_id_type definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string const& name() const noexcept { return name_; }
    [[nodiscard]] takatori::type::data const& return_type() const noexcept { return *return_; }
    [[nodiscard]] std::vector<std::shared_ptr<takatori::type::data const>> const& shared_parameter_types() const noexcept { return args_; }
    [[nodiscard]] bool incremental() const noexcept { return incremental_; }

private:
    definition_id_type id_{};
    std::string name_{};
    std::shared_ptr<takatori::type::data const> return_{};
    std::vector<std::shared_ptr<takatori::type::data const>> args_{};
    bool incremental_{};
};
}  // namespace yugawara::aggregate
