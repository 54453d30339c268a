// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <map>
#include <memory>
#include <unordered_map>
#include <takatori/descriptor/variable.h>
#include <takatori/type/data.h>
#include <yugawara/analyzer/variable_mapping.h>
namespace takatori::scalar {
class expression;
}
namespace yugawara {
// types of expressions and variables, filled by the harness (copies share them, as in the original)
class compiled_info {
public:
    [[nodiscard]] takatori::type::data const& type_of(takatori::scalar::expression const& e) const { return *exprs_->at(&e); }
    [[nodiscard]] takatori::type::data const& type_of(takatori::descriptor::variable const& v) const { return *vars_->at(v); }
    [[nodiscard]] analyzer::variable_mapping const& variables() const noexcept { return *map_; }
    [[nodiscard]] analyzer::variable_mapping& variables() noexcept { return *map_; }
    void bind(takatori::scalar::expression const& e, std::shared_ptr<takatori::type::data const> t) { (*exprs_)[&e] = std::move(t); }
    void bind(takatori::descriptor::variable const& v, std::shared_ptr<takatori::type::data const> t) { (*vars_)[v] = std::move(t); }
    // explain: the harness only needs a document saying that a statement was there
    struct scanner { template <class T, class P> void operator()(T const&, P&& p) const { p.out_ << "{}"; } };
    [[nodiscard]] scanner object_scanner() const { return {}; }
private:
    using E = std::map<takatori::scalar::expression const*, std::shared_ptr<takatori::type::data const>>;
    using V = std::unordered_map<takatori::descriptor::variable, std::shared_ptr<takatori::type::data const>>;
    std::shared_ptr<E> exprs_{std::make_shared<E>()};
    std::shared_ptr<V> vars_{std::make_shared<V>()};
    std::shared_ptr<analyzer::variable_mapping> map_{std::make_shared<analyzer::variable_mapping>()};
};
}  // namespace yugawara
