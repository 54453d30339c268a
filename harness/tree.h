// Typed scalar expressions with a reference interpretation.
#pragma once
#include <jogasaki/executor/expr/evaluator.h>
#include <jogasaki/executor/function/scalar_function_info.h>
#include <jogasaki/executor/function/scalar_function_repository.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/executor/process/impl/variable_table.h>
#include <jogasaki/executor/process/impl/variable_table_info.h>
#include <jogasaki/executor/process/impl/variables_view.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
#include <takatori/value/character.h>
#include <takatori/value/date.h>
#include <takatori/value/decimal.h>
#include <takatori/value/octet.h>
#include <takatori/value/primitive.h>
#include <takatori/value/time_of_day.h>
#include <takatori/value/time_point.h>
#include <yugawara/analyzer/block.h>
#include <yugawara/binding/factory.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <functional>
#include "expr.h"

namespace tree {
using namespace rec;
namespace sc = takatori::scalar;
namespace impl = jogasaki::executor::process::impl;
namespace je = jogasaki::executor::expr;
using big = boost::multiprecision::cpp_int;
using Expr = sc::expression_ptr;
using takatori::descriptor::variable;

// ---- decimal arithmetic with 38 digits, rounding half to even
inline Num of_big(bool neg, big const& b, i64 e) { return Num::of(neg, b.str(), e); }
inline big int_of(Num const& n, i64 e) {  // |n| as a multiple of 10^e, e <= n.e
    big b = n.zero() ? big{0} : big{n.d};
    for (i64 i = e; i < n.e; ++i) b *= 10;
    return b;
}
inline Num round38(Num const& n, bool more = false) {  // more: a little more than n in absolute value
    if (n.d.size() <= 38 && !(more && n.d.size() == 38)) return n;
    auto cut = n.d.substr(38);
    auto r = n.first(38);
    std::string d = n.d.substr(0, 38);
    bool up = cut > "5" || (cut == "5" && (more || (d.back() - '0') % 2 == 1));
    if (cut.empty()) up = false;
    if (!up) return r;
    return of_big(n.neg, big{d} + 1, n.e + static_cast<i64>(n.d.size()) - 38);
}
inline Num add(Num const& a, Num b, bool minus) {
    if (minus && !b.zero()) b.neg = !b.neg;
    auto e = std::min(a.zero() ? b.e : a.e, b.zero() ? a.e : b.e);
    big x = int_of(a, e), y = int_of(b, e);
    if (a.neg) x = -x;
    if (b.neg) y = -y;
    big r = x + y;
    bool neg = r < 0;
    return round38(of_big(neg, neg ? big(-r) : r, e));
}
inline Num mul(Num const& a, Num const& b) {
    if (a.zero() || b.zero()) return {};
    return round38(of_big(a.neg != b.neg, big{a.d} * big{b.d}, a.e + b.e));
}
inline Num div(Num const& a, Num const& b) {  // b is not zero
    if (a.zero()) return {};
    big x{a.d}, y{b.d};
    for (int i = 0; i < 80; ++i) x *= 10;
    big q = x / y, r = x % y;
    return round38(of_big(a.neg != b.neg, r.is_zero() ? q : big(q * 10 + 1), a.e - b.e - 80 - (r.is_zero() ? 0 : 1)));
}
inline std::optional<Num> rem(Num const& a, Num const& b) {  // nothing: the quotient has more than 38 digits
    auto e = std::min(a.zero() ? b.e : a.e, b.e);
    big x = int_of(a, e), y = int_of(b, e);
    big q = x / y, r = x % y;
    if (q.str().size() > 38) return {};
    return round38(of_big(a.neg, r, e));
}
inline double to_double(Num const& n) { return std::strtod(n.lit().c_str(), nullptr); }

// ---- values of the reference interpretation
struct Undefined {};  // what the expression gives is not specified (integer overflow)
struct M {
    u64 err = 0;  // the kinds of errors that may be reported, as bits
    V v{};
    Num n{};  // decimals
    [[nodiscard]] bool null() const { return v.null; }
};
inline M null(K k) { M m; m.v.k = k; m.v.null = true; return m; }
inline M fail(error_kind e) { M m; m.v.null = true; m.err = 1ULL << static_cast<u64>(e); return m; }
inline M boolean(bool b) { M m; m.v.k = K::boolean; m.v.i = b; return m; }
inline M text_of(std::string s) { M m; m.v.k = K::character; m.v.s = std::move(s); return m; }
inline M int_of(K k, i64 i) { M m; m.v.k = k; m.v.i = i; return m; }
inline M dbl_of(double d) { M m; m.v.k = K::float8; m.v.d = d; return m; }
inline M num_of(Num n) { M m; m.v.k = K::decimal; m.n = std::move(n); return m; }
inline M of(V const& v) {
    M m;
    m.v = v;
    if (!v.null && v.k == K::decimal) m.n = Num::of(v.t);
    return m;
}
inline std::ostream& operator<<(std::ostream& o, M const& m) {
    if (m.err) {
        o << "error";
        for (u64 i = 0; i < 64; ++i) if (m.err >> i & 1) o << " " << static_cast<error_kind>(i);
        return o;
    }
    return m.null() || m.v.k != K::decimal ? o << m.v : o << m.n;
}

// checks what the code gave against the reference
inline void check(any const& a, M const& m, K k) {
    if (m.err) {
        PBT_CHECK(a.error(), a, " in place of ", m);
        auto e = a.to<je::error>().kind();
        PBT_CHECK(m.err >> static_cast<u64>(e) & 1, a, " in place of ", m);
        return;
    }
    PBT_CHECK(!a.error(), a, " in place of ", m);
    if (m.null()) { PBT_CHECK(a.empty(), a, " in place of null"); return; }
    PBT_CHECK(!a.empty(), "null in place of ", m);
    auto v = from_any(a, k);
    if (k == K::decimal) PBT_CHECK(Num::of(v.t) == m.n, v.t, " in place of ", m);
    else PBT_CHECK(same(v, m.v), v, " in place of ", m);
}

// ---- nodes
struct Node {
    Expr e;
    Ty t;  // K::unknown for a null literal
    std::function<M()> eval;
    std::string str;
};

inline bool is_int(K k) { return k == K::int4 || k == K::int8; }
inline bool is_float(K k) { return k == K::float4 || k == K::float8; }
inline bool is_num(K k) { return is_int(k) || is_float(k) || k == K::decimal; }
inline Ty ty(K k) { Ty t; t.k = k; return t; }
inline K promoted(K a, K b) {
    if (a == b) return a;
    if (is_int(a) && is_int(b)) return K::int8;
    if (is_float(a) || is_float(b)) return K::float8;
    return K::decimal;
}
inline double as_dbl(M const& m) {
    switch (m.v.k) {
        case K::float4: return m.v.f;
        case K::float8: return m.v.d;
        case K::decimal: {
            if (!m.n.zero() && (m.n.top() > 300 || m.n.top() < -300)) throw Undefined{};
            return to_double(m.n);
        }
        default: return static_cast<double>(m.v.i);
    }
}
inline Num as_num(M const& m) { return m.v.k == K::decimal ? m.n : Num::of(static_cast<__int128>(m.v.i)); }

inline std::shared_ptr<takatori::value::data const> value_of(V const& v) {
    namespace tv = takatori::value;
    if (v.null) return std::make_shared<tv::unknown>();
    switch (v.k) {
        case K::boolean: return std::make_shared<tv::boolean>(v.i != 0);
        case K::int4: return std::make_shared<tv::int4>(static_cast<std::int32_t>(v.i));
        case K::int8: return std::make_shared<tv::int8>(v.i);
        case K::float4: return std::make_shared<tv::float4>(v.f);
        case K::float8: return std::make_shared<tv::float8>(v.d);
        case K::decimal: return std::make_shared<tv::decimal>(v.t);
        case K::character: return std::make_shared<tv::character>(v.s);
        case K::octet: return std::make_shared<tv::octet>(v.s);
        case K::date: return std::make_shared<tv::date>(dt::date{v.i});
        case K::time_of_day: return std::make_shared<tv::time_of_day>(dt::time_of_day{std::chrono::nanoseconds{v.i}});
        case K::time_point: return std::make_shared<tv::time_point>(dt::time_point{dt::time_point::offset_type{v.i}, std::chrono::nanoseconds{v.n}});
        default: std::abort();
    }
}

template <class... A>
std::string cat(A const&... a) {
    std::ostringstream o;
    (o << ... << a);
    return o.str();
}

// Variables of an expression, placed in the blocks of a process and among the host variables.
struct Vars {
    struct Var {
        Ty t;
        variable var;
        V val{};  // of the current row
        std::size_t block = 0;  // or the host variables
        bool host = false;
    };
    std::deque<Var> vars;
    std::shared_ptr<yugawara::compiled_info> info = std::make_shared<yugawara::compiled_info>();
    // built once the expression is complete
    std::deque<impl::variable_table_info> infos;
    std::shared_ptr<impl::variables_info_list> list;
    impl::variable_table_list tables;
    impl::variable_table_info host_info;
    std::unique_ptr<impl::variable_table> host;
    std::size_t current = 0;
    std::vector<std::size_t> path{};
    Res res;

    Var& make(Ty t) {
        vars.push_back({t, variable{std::make_shared<int const>(static_cast<int>(vars.size()))}});
        info->bind(vars.back().var, tk(t));
        return vars.back();
    }
    // a tree of blocks, evaluated in one of them; variables are in that block, in those above it or in the host variables
    void build(Src& s) {
        yugawara::analyzer::block head;
        std::vector<yugawara::analyzer::block*> at{&head};
        std::vector<std::size_t> order;
        std::vector<yugawara::analyzer::block*> way{&head};
        auto depth = s.range(0, 3);
        for (u64 i = 0; i < depth; ++i) {
            std::size_t n = s.range(1, 2), pick = s.idx(n);
            for (u64 k = 0; k < n; ++k) way.back()->downs.emplace_back();
            way.push_back(&way.back()->downs[pick]);
        }
        for (auto* b : way) b->exprs.push_back(std::make_shared<takatori::relation::expression>());
        std::vector<std::vector<variable>> killed;
        boost::dynamic_bitset<std::uint64_t> nulls;
        std::vector<jogasaki::meta::field_type> fields;
        std::unordered_map<variable, std::size_t> hv;
        for (auto& v : vars) {
            v.host = s.chance(25);
            if (v.host) {
                hv[v.var] = fields.size();
                fields.push_back(v.t.ft());
                nulls.push_back(true);
                continue;
            }
            v.block = s.idx(way.size());
            way[v.block]->defs.insert(v.var);
        }
        // variables that end their life in the block take no room in it
        for (auto* b : way)
            if (s.chance(30)) {
                auto v = variable{std::make_shared<int const>(-1)};
                info->bind(v, tk(ty(K::int8)));
                b->defs.insert(v);
                b->kills.insert(v);
            }
        takatori::relation::graph_type g;
        g.blocks = &head;
        auto [l, ix] = impl::create_block_variables_definition(g, *info);
        list = l;
        for (auto* b : way) path.push_back(ix->at(b->exprs.front().get()));
        current = path.back();
        for (auto const& i : *list) tables.emplace_back(i);
        if (!hv.empty() || s.flip()) {
            host_info = impl::variable_table_info{hv, std::unordered_map<std::string, variable>{}, std::make_shared<jogasaki::meta::record_meta>(std::move(fields), std::move(nulls))};
            host = std::make_unique<impl::variable_table>(host_info);
        }
        for (auto& t : tables)
            for (std::size_t i = 0; i < t.meta()->field_count(); ++i) t.store().ref().set_null(t.meta()->nullity_offset(i), true);
    }
    void store(bool hosts) {
        for (auto& v : vars) {
            if (v.host && !hosts) continue;
            auto const& t = v.host ? *host : tables[path[v.block]];
            PBT_CHECK(t.info().exists(v.var));
            auto const& i = t.info().at(v.var);
            auto r = t.store().ref();
            r.set_null(i.nullity_offset(), v.val.null);
            if (!v.val.null) put(r, i.value_offset(), v.val, &res);
        }
    }
    [[nodiscard]] impl::variables_view view() { return {tables, current}; }
};

// Builds random expressions of a wanted type.
struct Gen {
    Src& s;
    Vars& vars;
    int nulls = 12;
    bool calls = true;
    bool zoned = s.chance(20);  // the times of a tree are either all with a time zone or all without

    Node with(Ty t, Expr e, std::function<M()> f, std::string str) {
        vars.info->bind(*e, tk(t));
        return {std::move(e), t, std::move(f), std::move(str)};
    }
    Ty any_ty(K k) {
        Ty t = ty(k);
        if (k == K::decimal) { t.prec = s.chance(30) ? 38 : s.range(1, 38); t.scale = s.range(0, *t.prec); }
        if (k == K::character && s.flip()) { t.len = s.range(1, 20); t.varying = s.chance(70); }
        if (k == K::octet) t.len = s.range(1, 10);
        if (k == K::time_of_day || k == K::time_point) t.off = zoned;
        return t;
    }
    V value(Ty const& t) {
        V v;
        if (is_int(t.k) && !s.chance(12)) {
            v.k = t.k;
            v.i = static_cast<i64>(s.range(0, s.chance(80) ? 18 : 2000)) - (s.flip() ? 9 : 0);
        } else v = gen_value(s, t, 60);
        if (t.k == K::character && !t.varying) v.s.resize(*t.len, ' ');
        v.null = s.chance(nulls);
        return v;
    }
    Node leaf(K k) {
        bool lob = k == K::blob || k == K::clob;
        if (lob || s.flip()) {
            std::vector<Vars::Var*> fit;
            for (auto& v : vars.vars) if (v.t.k == k) fit.push_back(&v);
            auto* v = !fit.empty() && s.chance(60) ? fit[s.idx(fit.size())] : &vars.make(any_ty(k));
            return with(v->t, std::make_shared<sc::variable_reference>(v->var), [v] { return of(v->val); }, cat("v", v - &vars.vars[0] >= 0 ? *v->var.shared_entity() : 0));
        }
        auto t = any_ty(k);
        auto v = value(t);
        auto m = of(v);
        return with(t, std::make_shared<sc::immediate>(value_of(v), tk(t)), [m] { return m; }, cat(v, k == K::int8 ? "L" : k == K::float4 ? "f" : k == K::float8 ? "d" : k == K::decimal ? "m" : ""));
    }
    K num_kind() { return s.pick({K::int4, K::int8, K::float4, K::float8, K::decimal}); }
    K any_kind(bool lobs = false) {
        return s.pick({K::int4, K::int8, K::float4, K::float8, K::decimal, K::character, K::boolean, K::octet, K::date, K::time_of_day, K::time_point, lobs ? K::blob : K::int4, lobs ? K::clob : K::character});
    }
    static M bad(M const& a, M const& b) { M m; m.v.null = true; m.err = a.err | b.err; return m; }

    static M arith(sc::binary_operator op, M const& a, M const& b) {
        using o = sc::binary_operator;
        if (a.err || b.err) return bad(a, b);
        auto k = promoted(a.v.k, b.v.k);
        if (a.null() || b.null()) return null(k);
        auto ae = [] { return fail(error_kind::arithmetic_error); };
        if (is_int(k)) {
            __int128 x = a.v.i, y = b.v.i, r = 0;
            switch (op) {
                case o::add: r = x + y; break;
                case o::subtract: r = x - y; break;
                case o::multiply: r = x * y; break;
                case o::divide: if (y == 0) return ae(); r = x / y; break;
                default: if (y == 0) return ae(); r = x % y; break;
            }
            bool in = k == K::int4 ? r >= INT32_MIN && r <= INT32_MAX : r >= INT64_MIN && r <= INT64_MAX;
            if (!in) {
                if (op == o::divide) return ae();
                throw Undefined{};
            }
            return int_of(k, static_cast<i64>(r));
        }
        if (is_float(k)) {
            auto f = [&](auto x, auto y) -> std::optional<decltype(x)> {
                switch (op) {
                    case o::add: return x + y;
                    case o::subtract: return x - y;
                    case o::multiply: return x * y;
                    case o::divide: if (y == 0) return {}; return x / y;
                    default: std::abort();
                }
            };
            if (op == o::remainder) return fail(error_kind::unsupported);
            M m;
            m.v.k = k;
            if (k == K::float4) {
                auto r = f(a.v.f, b.v.f);
                if (!r) return ae();
                m.v.f = *r;
            } else {
                auto r = f(as_dbl(a), as_dbl(b));
                if (!r) return ae();
                m.v.d = *r;
            }
            return m;
        }
        auto x = as_num(a), y = as_num(b);
        for (auto const& n : {x, y}) if (!n.zero() && (n.top() > 2000 || n.e < -2000)) throw Undefined{};
        switch (op) {
            case o::add: return num_of(add(x, y, false));
            case o::subtract: return num_of(add(x, y, true));
            case o::multiply: return num_of(mul(x, y));
            case o::divide: if (y.zero()) return ae(); return num_of(div(x, y));
            default: {
                if (y.zero()) return ae();
                auto r = rem(x, y);
                return r ? num_of(*r) : ae();
            }
        }
    }
    static int compare(M const& a, M const& b) {
        if (is_num(a.v.k)) {
            auto k = promoted(a.v.k, b.v.k);
            if (is_int(k)) return a.v.i < b.v.i ? -1 : a.v.i > b.v.i;
            if (k == K::decimal) return Num::cmp(as_num(a), as_num(b));
            V x, y;
            x.k = y.k = K::float8;
            x.d = as_dbl(a);
            y.d = as_dbl(b);
            return cmp3(x, y);
        }
        return cmp3(a.v, b.v);
    }
    // implicit conversion between the alternatives of an expression
    static M unify(M m, Ty const& to) {
        if (m.err) return m;
        if (m.null()) return null(to.k);
        if (m.v.k == to.k) return m;
        switch (to.k) {
            case K::int8: m.v.k = K::int8; return m;
            case K::float8: return dbl_of(as_dbl(m));
            case K::decimal: return num_of(as_num(m));
            default: std::abort();
        }
    }
    // an expression whose value fits the type after the implicit conversion
    Node alternative(Ty const& to, int depth) {
        if (s.chance(10)) {
            return with(ty(K::unknown), std::make_shared<sc::immediate>(std::make_shared<takatori::value::unknown>(), tk(ty(K::unknown))), [] { return null(K::unknown); }, "NULL");
        }
        auto k = to.k;
        if (s.chance(40)) {
            if (k == K::int8) k = K::int4;
            else if (k == K::float8) k = s.pick({K::int4, K::int8, K::float4, K::decimal});
            else if (k == K::decimal) k = s.pick({K::int4, K::int8});
        }
        return gen(k, depth);
    }
    // the type an expression of the kind has when its alternatives may be of any length or precision
    Ty wide(K k) { Ty t = ty(k); if (k == K::time_of_day || k == K::time_point) t.off = zoned; return t; }

    Node gen(K k, int depth) {
        if (depth <= 0 || s.chance(12)) return leaf(k);
        auto special = s.range(0, 99);
        if (special < 12) return conditional(k, depth);
        if (special < 20) return coalesce(k, depth);
        if (special < 26 && calls && (k == K::int8 || k == K::character || k == K::decimal)) return call(k, depth);
        switch (k) {
            case K::boolean: return predicate(depth);
            case K::int4:
            case K::int8:
            case K::float4:
            case K::float8:
            case K::decimal: return number(k, depth);
            case K::character: {
                if (s.chance(25)) return cast_text(depth);
                auto a = gen(K::character, depth - 1), b = gen(K::character, depth - 1);
                return with(ty(K::character), std::make_shared<sc::binary>(sc::binary_operator::concat, a.e, b.e), [x = a.eval, y = b.eval] {
                    auto l = x(), r = y();
                    if (l.err || r.err) return bad(l, r);
                    if (l.null() || r.null()) return null(K::character);
                    return text_of(l.v.s + r.v.s);
                }, cat("(", a.str, " || ", b.str, ")"));
            }
            default: return leaf(k);
        }
    }
    Node cast_text(int depth) {
        auto a = gen(s.pick({K::int4, K::int8}), depth - 1);
        return with(ty(K::character), std::make_shared<sc::cast>(tk(ty(K::character)), policy(), a.e), [x = a.eval] {
            auto m = x();
            if (m.err) return m;
            if (m.null()) return null(K::character);
            return text_of(std::to_string(m.v.i));
        }, cat("CAST(", a.str, " AS VARCHAR)"));
    }
    sc::cast_loss_policy policy() {
        using p = sc::cast_loss_policy;
        return s.pick({p::ignore, p::error, p::warn, p::floor, p::ceil});
    }
    Node cast_int(int depth) {
        using p = sc::cast_loss_policy;
        auto pol = policy();
        auto a = gen(s.chance(70) ? K::int8 : K::decimal, depth - 1);
        return with(ty(K::int4), std::make_shared<sc::cast>(tk(ty(K::int4)), pol, a.e), [x = a.eval, pol] {
            auto m = x();
            if (m.err) return m;
            if (m.null()) return null(K::int4);
            auto n = as_num(m);
            if (!n.zero() && (n.top() > 2000 || n.e < -2000)) throw Undefined{};
            auto lo = Num::of(static_cast<__int128>(INT32_MIN)), hi = Num::of(static_cast<__int128>(INT32_MAX));
            auto r = n.trunc(0);
            if (Num::cmp(r, lo) < 0) r = lo;
            if (Num::cmp(r, hi) > 0) r = hi;
            if (!(r == n)) {
                if (pol == p::error) return fail(error_kind::lost_precision);
                if (pol == p::floor || pol == p::ceil) return fail(error_kind::unsupported);
            }
            return int_of(K::int4, r.to_i64());
        }, cat("CAST(", a.str, " AS INT policy ", static_cast<int>(pol), ")"));
    }
    Node number(K k, int depth) {
        using o = sc::binary_operator;
        if (s.chance(12)) {
            auto a = gen(k, depth - 1);
            bool minus = s.flip();
            return with(k == K::decimal ? ty(k) : a.t, std::make_shared<sc::unary>(minus ? sc::unary_operator::sign_inversion : sc::unary_operator::plus, a.e), [x = a.eval, minus, k] {
                auto m = x();
                if (m.err || m.null() || !minus) return m;
                if (is_int(k)) {
                    if (m.v.i == (k == K::int4 ? INT32_MIN : INT64_MIN)) throw Undefined{};
                    m.v.i = -m.v.i;
                }
                m.v.f = -m.v.f;
                m.v.d = -m.v.d;
                if (!m.n.zero()) m.n.neg = !m.n.neg;
                return m;
            }, cat(minus ? "-(" : "+(", a.str, ")"));
        }
        if (k == K::int4 && s.chance(15)) return cast_int(depth);
        K l = k, r = k;
        if (s.chance(60)) {
            auto other = [&](K x) {
                if (k == K::int8) return s.pick({K::int4, x});
                if (k == K::decimal) return s.pick({K::int4, K::int8, x});
                if (k == K::float8) return s.pick({K::int4, K::int8, K::float4, K::decimal, x});
                return x;
            };
            (s.flip() ? l : r) = other(k);
            if (k == K::float8 && l != r && s.chance(20)) (l == k ? l : r) = K::float4;
            if (promoted(l, r) != k) l = r = k;
        }
        auto op = is_float(k) ? s.pick({o::add, o::subtract, o::multiply, o::divide}) : s.pick({o::add, o::subtract, o::multiply, o::divide, o::remainder});
        auto a = gen(l, depth - 1), b = gen(r, depth - 1);
        return with(ty(k), std::make_shared<sc::binary>(op, a.e, b.e), [x = a.eval, y = b.eval, op, k] {
            auto l = x(), r = y();
            if (l.err || r.err) return bad(l, r);
            if (l.null() || r.null()) return null(k);
            return arith(op, l, r);
        }, cat("(", a.str, " ", op == o::add ? "+" : op == o::subtract ? "-" : op == o::multiply ? "*" : op == o::divide ? "/" : "%", " ", b.str, ")"));
    }
    Node predicate(int depth) {
        using u = sc::unary_operator;
        using b = sc::binary_operator;
        auto w = s.range(0, 99);
        if (w < 30) {
            bool conj = s.flip();
            auto l = gen(K::boolean, depth - 1), r = gen(K::boolean, depth - 1);
            return with(ty(K::boolean), std::make_shared<sc::binary>(conj ? b::conditional_and : b::conditional_or, l.e, r.e), [x = l.eval, y = r.eval, conj] {
                auto l = x(), r = y();
                if (l.err || r.err) return bad(l, r);
                if ((!l.null() && (l.v.i != 0) != conj) || (!r.null() && (r.v.i != 0) != conj)) return boolean(!conj);
                if (l.null() || r.null()) return null(K::boolean);
                return boolean(conj);
            }, cat("(", l.str, conj ? " AND " : " OR ", r.str, ")"));
        }
        if (w < 55) {
            auto op = s.pick({u::conditional_not, u::is_true, u::is_false, u::is_unknown});
            auto a = gen(K::boolean, depth - 1);
            return with(ty(K::boolean), std::make_shared<sc::unary>(op, a.e), [x = a.eval, op] {
                auto m = x();
                if (m.err) return m;
                bool t = !m.null() && m.v.i != 0, f = !m.null() && m.v.i == 0;
                if (op == u::is_true) return boolean(t);
                if (op == u::is_false) return boolean(f);
                if (op == u::is_unknown) return boolean(m.null());
                if (m.null()) return m;
                return boolean(f);
            }, cat("(", op == u::conditional_not ? "NOT " : "", a.str, op == u::is_true ? " IS TRUE" : op == u::is_false ? " IS FALSE" : op == u::is_unknown ? " IS UNKNOWN" : "", ")"));
        }
        if (w < 65) {
            auto a = gen(any_kind(true), depth - 1);
            return with(ty(K::boolean), std::make_shared<sc::unary>(u::is_null, a.e), [x = a.eval] {
                auto m = x();
                return m.err ? m : boolean(m.null());
            }, cat("(", a.str, " IS NULL)"));
        }
        using c = sc::comparison_operator;
        K k = s.pick({K::int4, K::int8, K::float4, K::float8, K::decimal, K::decimal, K::character, K::octet, K::date, K::time_of_day, K::time_point});
        auto op = s.pick({c::equal, c::not_equal, c::less, c::less_equal, c::greater, c::greater_equal, c::is_distinct_from, c::is_not_distinct_from});
        auto l = gen(k, depth - 1);
        auto r = s.chance(15) ? l : gen(is_num(k) && s.flip() ? num_kind() : k, depth - 1);
        static constexpr char const* names[] = {"=", "<>", "<", "<=", ">", ">="};
        std::string nm = op == c::equal ? names[0] : op == c::not_equal ? names[1] : op == c::less ? names[2] : op == c::less_equal ? names[3] : op == c::greater ? names[4] : op == c::greater_equal ? names[5] : op == c::is_distinct_from ? "IS DISTINCT FROM" : "IS NOT DISTINCT FROM";
        return with(ty(K::boolean), std::make_shared<sc::compare>(op, l.e, r.e), [x = l.eval, y = r.eval, op] {
            auto l = x(), r = y();
            if (l.err || r.err) return bad(l, r);
            bool distinct = op == c::is_distinct_from, same = op == c::is_not_distinct_from;
            if (l.null() || r.null()) {
                if (!distinct && !same) return null(K::boolean);
                return boolean((l.null() && r.null()) == same);
            }
            auto x3 = compare(l, r);
            switch (op) {
                case c::equal:
                case c::is_not_distinct_from: return boolean(x3 == 0);
                case c::not_equal:
                case c::is_distinct_from: return boolean(x3 != 0);
                case c::less: return boolean(x3 < 0);
                case c::less_equal: return boolean(x3 <= 0);
                case c::greater: return boolean(x3 > 0);
                default: return boolean(x3 >= 0);
            }
        }, cat("(", l.str, " ", nm, " ", r.str, ")"));
    }
    Node conditional(K k, int depth) {
        auto to = wide(k);
        auto n = s.range(1, 3);
        std::vector<sc::conditional_alternative> alts;
        std::vector<std::pair<std::function<M()>, std::function<M()>>> fs;
        std::string str = "CASE";
        for (u64 i = 0; i < n; ++i) {
            auto c = gen(K::boolean, depth - 1);
            auto b = alternative(to, depth - 1);
            alts.emplace_back(c.e, b.e);
            fs.emplace_back(c.eval, b.eval);
            str += cat(" WHEN ", c.str, " THEN ", b.str);
        }
        std::optional<Node> d;
        if (s.chance(70)) d = alternative(to, depth - 1);
        if (d) str += " ELSE " + d->str;
        return with(to, std::make_shared<sc::conditional>(std::move(alts), d ? d->e : nullptr), [fs, f = d ? d->eval : nullptr, to] {
            for (auto const& [c, b] : fs) {
                auto m = c();
                if (m.err) return m;
                if (m.null() || m.v.i == 0) continue;
                return unify(b(), to);
            }
            return f ? unify(f(), to) : null(to.k);
        }, str + " END");
    }
    Node coalesce(K k, int depth) {
        auto to = wide(k);
        auto n = s.range(1, 3);
        std::vector<Expr> es;
        std::vector<std::function<M()>> fs;
        std::string str = "COALESCE(";
        for (u64 i = 0; i < n; ++i) {
            auto b = alternative(to, depth - 1);
            es.push_back(b.e);
            fs.push_back(b.eval);
            str += (i ? ", " : "") + b.str;
        }
        return with(to, std::make_shared<sc::coalesce>(std::move(es)), [fs, to] {
            for (auto const& f : fs) {
                auto m = f();
                if (m.err) return m;
                if (m.null()) continue;
                return unify(m, to);
            }
            return null(to.k);
        }, str + ")");
    }
    // calls of functions defined by the harness
    Node call(K k, int depth) {
        namespace yf = yugawara::function;
        auto id = k == K::int8 ? 1 : k == K::character ? 2 : 3;
        auto p = tk(ty(k));
        auto decl = std::make_shared<yf::declaration>(static_cast<std::size_t>(id), "f", p, std::vector<yf::declaration::type_arg>{p, p});
        std::vector<Expr> es;
        std::vector<std::function<M()>> fs;
        std::string str = cat("f", id, "(");
        for (int i = 0; i < 2; ++i) {
            K a = k;
            if (k == K::int8 && s.flip()) a = K::int4;
            if (k == K::decimal && s.flip()) a = s.pick({K::int4, K::int8});
            auto b = gen(a, depth - 1);
            es.push_back(b.e);
            fs.push_back(b.eval);
            str += (i ? ", " : "") + b.str;
        }
        return with(ty(k), std::make_shared<sc::function_call>(yugawara::binding::factory{}(decl), std::move(es)), [fs, k] {
            M a[2];
            for (int i = 0; i < 2; ++i) {
                a[i] = unify(fs[static_cast<std::size_t>(i)](), ty(k));
                if (a[i].err) return a[i];
            }
            if (k == K::int8) {  // fails if both are equal, otherwise takes the larger
                if (a[0].null() || a[1].null()) return null(k);
                if (a[0].v.i == a[1].v.i) return fail(error_kind::invalid_input_value);
                return int_of(k, std::max(a[0].v.i, a[1].v.i));
            }
            return a[1].null() ? a[0] : a[1];  // the last that is not null
        }, str + ")");
    }
};

inline any f_larger(evaluator_context&, takatori::util::sequence_view<any> a) {
    if (a[0].empty() || a[1].empty()) return {};
    auto x = a[0].to<std::int64_t>(), y = a[1].to<std::int64_t>();
    if (x == y) return any{std::in_place_type<je::error>, je::error{error_kind::invalid_input_value}};
    return any{std::in_place_type<std::int64_t>, std::max(x, y)};
}
inline any f_last(evaluator_context&, takatori::util::sequence_view<any> a) { return a[1].empty() ? a[0] : a[1]; }

inline void add_functions(jogasaki::executor::function::scalar_function_repository& r) {
    using namespace jogasaki::executor::function;
    r.add(1, std::make_shared<scalar_function_info>(scalar_function_kind{}, scalar_function_type{f_larger}, 2));
    r.add(2, std::make_shared<scalar_function_info>(scalar_function_kind{}, scalar_function_type{f_last}, 2));
    r.add(3, std::make_shared<scalar_function_info>(scalar_function_kind{}, scalar_function_type{f_last}, 2));
}
}  // namespace tree
