// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <yugawara/compiler_options.h>
#include <yugawara/compiler_result.h>
#include <yugawara/variable/provider.h>
namespace mizugaki {
// what the harness registered for a SQL text: the statement the analyzer and the compiler produce for it
struct analyzed {
    std::function<yugawara::compiler_result(yugawara::compiler_options&)> finish;
};
struct front_end {
    // 0: no statement at all; nothing registered: syntax error
    enum class kind { syntax_error, analyzer_error, plan, statement } k{kind::syntax_error};
    int statements = 1, empties = 0;
    int code = 0;  // of the analyzer error
    std::function<yugawara::compiler_result(yugawara::compiler_options&)> finish{};
    // code of the analyzer error for the host variables, negative if there is none
    std::function<int(yugawara::variable::provider const*)> check{};
    // the host variables given to the analyzer last
    static yugawara::variable::provider const*& variables() {
        static thread_local yugawara::variable::provider const* p = nullptr;
        return p;
    }
    static std::function<front_end(std::string const&)>& lookup() {
        static std::function<front_end(std::string const&)> f;
        return f;
    }
};
}  // namespace mizugaki
