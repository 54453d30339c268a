// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <takatori/scalar/expression.h>
#include <takatori/type/data.h>
#include <yugawara/function/function_feature.h>
namespace yugawara::function {
class declaration {
public:
    using definition_id_type = std::size_t;
    static constexpr definition_id_type minimum_system_function_id = 10'000;
    static constexpr definition_id_type minimum_builtin_function_id = 10'000;
    static constexpr definition_id_type minimum_user_function_id = 20'000;
    // a type given by value
    struct type_arg {
        type_arg(takatori::type::data const& d) : p(d.clone()) {}
        type_arg(std::shared_ptr<takatori::type::data const> d) : p(std::move(d)) {}
        std::shared_ptr<takatori::type::data const> p;
    };
    declaration(definition_id_type id, std::string name, type_arg r, std::vector<type_arg> const& args)
        : id_(id), name_(std::move(name)), return_(std::move(r.p)) {
        std::vector<std::shared_ptr<takatori::type::data const>> v;
        for (auto&& a : args) v.push_back(a.p);
        args_ = std::move(v);
    }
    declaration(definition_id_type id, std::string name, std::shared_ptr<takatori::type::data const> r, std::vector<std::shared_ptr<takatori::type::data const>> args, function_feature_set f = {})
        : id_(id), name_(std::move(name)), return_(std::move(r)), features_(f) {
        args_ = std::move(args);
    }
    [[nodiscard]] definition_id_type definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string const& name() const noexcept { return name_; }
    [[nodiscard]] takatori::type::data const& return_type() const noexcept { return *return_; }
    [[nodiscard]] takatori::scalar::owned_list<takatori::type::data> const& parameter_types() const noexcept { return args_; }
    [[nodiscard]] function_feature_set const& features() const noexcept { return features_; }
private:
    function_feature_set features_{};
    definition_id_type id_{};
    std::string name_{};
    std::shared_ptr<takatori::type::data const> return_{};
    takatori::scalar::owned_list<takatori::type::data> args_{};
};
}  // namespace yugawara::function
