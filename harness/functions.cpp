// P22: the built-in scalar functions of SQL.
#include <takatori/scalar/binary.h>
#include <takatori/scalar/cast.h>
#include <takatori/scalar/coalesce.h>
#include <takatori/scalar/compare.h>
#include <takatori/scalar/conditional.h>
#include <takatori/scalar/function_call.h>
#include <takatori/scalar/immediate.h>
#include <takatori/scalar/match.h>
#include <takatori/scalar/unary.h>
#include <takatori/scalar/variable_reference.h>
#include <yugawara/function/configurable_provider.h>
#include <jogasaki/executor/expr/single_function_evaluator.h>
#include <jogasaki/executor/function/builtin_scalar_functions.h>
#include <jogasaki/utils/find_function.h>
#include <cmath>
#include <set>
#include "tree.h"
#include "globals.inc"
#include "no_request.inc"
#include "no_lobs.inc"
#include "utf8_model.h"

using namespace tree;
namespace yf = yugawara::function;
using clk = jogasaki::transaction_context::clock;

namespace {
std::optional<clk::time_point> now{};
struct Registry {
    yf::configurable_provider provider{};
    jogasaki::executor::function::scalar_function_repository repo{};
    Registry() { jogasaki::executor::function::add_builtin_scalar_functions(provider, repo); }
};
Registry& registry() {
    static Registry r{};
    return r;
}
}  // namespace
namespace jogasaki {
std::optional<transaction_context::clock::time_point> transaction_context::start_time() const noexcept { return now; }
namespace global {
executor::function::scalar_function_repository& scalar_function_repository() { return registry().repo; }
}  // namespace global
}  // namespace jogasaki

namespace {
jogasaki::transaction_context* some_tx() {
    static char c[8];
    return reinterpret_cast<jogasaki::transaction_context*>(c);
}
struct Eval {
    std::unique_ptr<jogasaki::memory::lifo_paged_memory_resource> mem =
        std::make_unique<jogasaki::memory::lifo_paged_memory_resource>(&jogasaki::global::page_pool(jogasaki::global::pool_operation::get));
    evaluator_context ctx{mem.get(), some_tx()};
    Vars vars{};
};

struct Sig {
    std::string name;
    K ret;
    std::vector<K> args;
};
std::vector<Sig> const& signatures() {
    static std::vector<Sig> const r = [] {
        std::vector<Sig> r;
        auto c = K::character, b = K::octet, i = K::int4, l = K::int8, m = K::decimal;
        r.push_back({"octet_length", l, {c}});
        r.push_back({"octet_length", l, {b}});
        for (auto const* n : {"substring", "substr"})
            for (auto k : {c, b}) {
                r.push_back({n, k, {k, l, l}});
                r.push_back({n, k, {k, l}});
            }
        for (auto const* n : {"upper", "lower", "rtrim", "ltrim"}) r.push_back({n, c, {c}});
        for (auto const* n : {"character_length", "char_length"}) r.push_back({n, l, {c}});
        for (auto k : {i, l, K::float4, K::float8, m}) {
            for (auto const* n : {"abs", "ceil", "floor", "round"}) r.push_back({n, k, {k}});
            r.push_back({"round", k, {k, i}});
            r.push_back({"round", k, {k, l}});
        }
        r.push_back({"position", l, {c, c}});
        for (auto x : {i, l, m})
            for (auto y : {i, l, m}) r.push_back({"mod", promoted(x, y), {x, y}});
        r.push_back({"encode", c, {b, c}});
        r.push_back({"decode", b, {c, c}});
        return r;
    }();
    return r;
}
takatori::type::type_kind tkind(K k) { return tk(ty(k))->kind(); }
std::shared_ptr<yf::declaration const> find(Sig const& g) {
    std::shared_ptr<yf::declaration const> r{};
    registry().provider.each([&](std::shared_ptr<yf::declaration const> const& d) {
        if (d->name() != g.name || d->parameter_types().size() != g.args.size()) return;
        for (std::size_t i = 0; i < g.args.size(); ++i) if (d->parameter_types()[i].kind() != tkind(g.args[i])) return;
        PBT_CHECK(!r, "two functions ", g.name, " of the same parameters");
        r = d;
    });
    PBT_CHECK(!!r, "no function ", g.name);
    PBT_CHECK(r->return_type().kind() == tkind(g.ret), g.name, " has another type");
    return r;
}

std::vector<std::string> const good{"a", "b", "Z", " ", "é", "あ", "い", "\xF0\x9F\x98\x80", "z", "A"};
std::vector<std::string> const broken{"\x80", "\x81\x82", "\xC3", "\xE3", "\xE3\x81", "\xF0\x9F\x98", "\xF0", "\xFF", "\xC0\xAF", "\xF5\x80\x80\x80"};
std::string some_text(Src& s) {
    std::string r;
    auto n = s.chance(2) ? s.range(1000, 4000) : s.chance(30) ? s.range(8, 40) : s.range(0, 7);
    auto al = s.chance(30) ? 2 : s.range(1, good.size());
    for (u64 i = 0; i < n; ++i) r += good[s.idx(al)];
    if (s.chance(20)) {
        auto bad = broken[s.idx(broken.size())];
        if (s.flip()) r += bad;
        else r = bad + r;
        if (s.chance(20)) r += good[s.idx(good.size())];
    }
    return r;
}
std::vector<std::string> chars_of(std::string const& t) {
    std::vector<std::string> r;
    for (std::size_t i = 0; i < t.size();) {
        auto n = utf8m::strict_len(t, i);
        r.push_back(t.substr(i, n));
        i += n;
    }
    return r;
}
char const* const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string encoded(std::string const& d) {
    std::string r;
    for (std::size_t i = 0; i < d.size(); i += 3) {
        unsigned v = 0;
        for (std::size_t j = 0; j < 3; ++j) v = v << 8 | (i + j < d.size() ? static_cast<unsigned char>(d[i + j]) : 0U);
        for (std::size_t j = 0; j < 4; ++j) r += i + j <= d.size() ? b64[v >> (18 - 6 * j) & 63] : '=';
    }
    return r;
}
// nothing: not of the encoding
std::optional<std::string> decoded(std::string t) {
    if (t.size() % 4 != 0) return {};
    std::size_t pad = 0;
    while (pad < 2 && !t.empty() && t.back() == '=') { t.pop_back(); ++pad; }
    std::string r;
    unsigned v = 0, bits = 0;
    for (char c : t) {
        auto const* p = std::strchr(b64, c);
        if (!p || !c) return {};
        v = v << 6 | static_cast<unsigned>(p - b64);
        bits += 6;
        if (bits >= 8) { bits -= 8; r += static_cast<char>(v >> bits & 0xFF); }
    }
    return r;
}

struct Want {
    M m{};
    bool any_error = false;  // of any kind
    bool or_null = false;    // or null
    bool free = false;       // the value is not specified
    std::function<void(any const&)> test{};
};
Want w(M m) { return {std::move(m)}; }
Want failing() { Want r; r.any_error = true; return r; }
Want anything() { Want r; r.free = true; return r; }
V fl(K k, double d) {
    V v;
    v.k = k;
    if (k == K::float4) v.f = static_cast<float>(d);
    else v.d = d;
    return v;
}
double dbl(V const& v) { return v.k == K::float4 ? v.f : v.d; }

// to a multiple of 10^-p, halves away from zero
Num rounded(Num const& n, i64 p) {
    auto t = n.trunc(p);
    auto d = add(n, t, true);
    if (Num::cmp_abs(d, Num::of(false, "5", -p - 1)) < 0) return t;
    return add(t, Num::of(n.neg, "1", -p), false);
}
Want round_of(M const& x, i64 p) {
    auto k = x.v.k;
    i64 lo = k == K::int4 ? -9 : k == K::int8 ? -18 : k == K::float4 ? -7 : k == K::float8 ? -15 : -38;
    i64 hi = is_int(k) ? 0 : -lo;
    if (p < lo || p > hi) return failing();
    if (k == K::decimal) return w(num_of(rounded(x.n, p)));
    if (is_int(k)) {
        auto r = rounded(Num::of(static_cast<__int128>(x.v.i)), p);
        __int128 v = 0;
        for (char c : r.d) v = v * 10 + (c - '0');
        for (i64 i = 0; i < r.e; ++i) v *= 10;
        if (r.neg) v = -v;
        if (k == K::int4 ? v != static_cast<std::int32_t>(v) : v != static_cast<i64>(v)) return failing();
        return w(int_of(k, static_cast<i64>(v)));
    }
    auto d = dbl(x.v);
    if (!std::isfinite(d) || d == 0) return w(of(fl(k, d)));
    Want r;
    r.test = [k, d, p](any const& a) {
        auto g = static_cast<long double>(dbl(from_any(a, k)));
        PBT_CHECK(std::isfinite(g), "rounding ", d, " gives ", g);
        auto unit = powl(10.0L, static_cast<long double>(-p));
        auto q = truncl(static_cast<long double>(d) / unit);
        bool good = false;
        for (auto c : {q * unit, (q + (d < 0 ? -1 : 1)) * unit}) {
            auto tol = std::max(std::fabs(static_cast<long double>(d)), fabsl(c)) * (k == K::float4 ? 6 * 0x1p-23L : 6 * 0x1p-52L) + (k == K::float4 ? 0x1p-146L : 0x1p-1070L);
            good = good || (fabsl(g - c) <= tol && fabsl(static_cast<long double>(d) - c) <= unit / 2 + tol);
        }
        PBT_CHECK(good, "rounding ", d, " to ", p, " digits gives ", g);
        PBT_CHECK(g == 0 || std::signbit(g) == std::signbit(d));
    };
    return r;
}

Want expected(Sig const& g, std::vector<M> const& a) {
    auto const& n = g.name;
    if (a[0].null()) return w(null(g.ret));
    if (n == "encode" || n == "decode") {
        if (a[1].null()) return failing();
        std::string e;
        for (char c : a[1].v.s) e += static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
        if (e != "base64") return failing();
        if (n == "encode") return w(text_of(encoded(a[0].v.s)));
        auto d = decoded(a[0].v.s);
        if (!d) return failing();
        M m;
        m.v.k = K::octet;
        m.v.s = *d;
        auto r = w(m);
        r.any_error = encoded(*d) != a[0].v.s;  // bits that are lost may be refused
        return r;
    }
    for (auto const& x : a) if (x.null()) return w(null(g.ret));
    auto const& t = a[0].v.s;
    auto x = a[0];
    if (n == "octet_length") return w(int_of(K::int8, static_cast<i64>(t.size())));
    if (n == "character_length" || n == "char_length") return w(utf8m::valid(t) ? int_of(K::int8, static_cast<i64>(chars_of(t).size())) : null(K::int8));
    if (n == "substring" || n == "substr") {
        if (g.ret == K::character && !utf8m::valid(t)) return w(null(g.ret));
        std::vector<std::string> cs;
        if (g.ret == K::character) cs = chars_of(t);
        else for (char c : t) cs.emplace_back(1, c);
        auto from = a[1].v.i;
        if (from < 1 || from > static_cast<i64>(cs.size())) return w(null(g.ret));
        if (a.size() > 2 && a[2].v.i < 0) return w(null(g.ret));
        M m;
        m.v.k = g.ret;
        for (i64 i = from - 1, k = 0; i < static_cast<i64>(cs.size()) && (a.size() < 3 || k < a[2].v.i); ++i, ++k) m.v.s += cs[static_cast<std::size_t>(i)];
        return w(m);
    }
    if (n == "position") {
        auto const& in = a[1].v.s;
        if (t.empty()) { auto r = w(int_of(K::int8, 1)); r.or_null = !utf8m::valid(in); return r; }
        if (!utf8m::valid(in)) return w(null(K::int8));
        if (!utf8m::valid(t)) return anything();
        auto p = chars_of(t), q = chars_of(in);
        auto it = std::search(q.begin(), q.end(), p.begin(), p.end());
        return w(int_of(K::int8, it == q.end() ? 0 : it - q.begin() + 1));
    }
    if (n == "upper" || n == "lower" || n == "rtrim" || n == "ltrim") {
        if (!utf8m::valid(t)) return anything();
        auto r = t;
        if (n == "upper") for (auto& c : r) { if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 'a' + 'A'); }
        if (n == "lower") for (auto& c : r) { if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a'); }
        if (n == "rtrim") while (!r.empty() && r.back() == ' ') r.pop_back();
        if (n == "ltrim") r.erase(0, std::min(r.find_first_not_of(' '), r.size()));
        return w(text_of(r));
    }
    if (n == "mod") return w(Gen::arith(sc::binary_operator::remainder, a[0], a[1]));
    auto k = g.ret;
    if (n == "round") return round_of(x, a.size() > 1 ? a[1].v.i : 0);
    if (n == "abs") {
        if (is_int(k)) {
            if (x.v.i == (k == K::int4 ? INT32_MIN : INT64_MIN)) return failing();
            return w(int_of(k, x.v.i < 0 ? -x.v.i : x.v.i));
        }
        if (k == K::decimal) { x.n.neg = false; return w(x); }
        return w(of(fl(k, std::fabs(dbl(x.v)))));
    }
    PBT_CHECK(n == "ceil" || n == "floor");
    if (is_int(k)) return w(x);
    if (k == K::decimal) {
        auto c = x.n.trunc(0);
        if (!(c == x.n) && x.n.neg == (n == "floor")) c = add(c, Num::of(x.n.neg, "1", 0), false);
        return w(num_of(c));
    }
    auto d = dbl(x.v);
    if (!std::isfinite(d) || d == 0 || std::fabs(d) >= 0x1p53) return w(of(fl(k, d)));
    auto i = static_cast<i64>(d);  // towards zero
    if (static_cast<double>(i) != d && (d < 0) == (n == "floor")) i += n == "floor" ? -1 : 1;
    return w(of(fl(k, i == 0 && d < 0 ? -0.0 : static_cast<double>(i))));
}

// the value of an argument
V argument(Src& s, Gen& g, Sig const& f, std::size_t i, Ty const& t, std::vector<V> const& before) {
    V v = g.value(t);
    auto const& n = f.name;
    auto str = [&](std::string x) {
        v.s = std::move(x);
        if (t.len && v.s.size() > *t.len) v.s.resize(*t.len);
        if (t.len && !t.varying) v.s.resize(*t.len, t.k == K::character ? ' ' : '\0');
    };
    if (t.k == K::character) {
        if (n == "decode" && i == 0) {
            if (s.chance(80)) {
                auto e = encoded(s.bytes(s.chance(20) ? 60 : 7));
                if (s.chance(25) && !e.empty()) e[s.idx(e.size())] = s.pick({'=', '!', 'A', '/', ' ', '\x80'});
                if (s.chance(10)) e.resize(s.idx(e.size() + 1));
                str(e);
            }
        } else if (i == 1 && (n == "encode" || n == "decode")) {
            v.s = s.chance(85) ? s.pick({"base64", "BASE64", "Base64"}) : s.pick({"", "hex", "base6", "base64 ", "base644"});
        } else if (n == "position" && i == 1 && !before[0].null && s.chance(70)) {
            auto x = some_text(s), y = some_text(s);
            str((utf8m::valid(x) ? x : "") + (s.chance(20) && !before[0].s.empty() ? before[0].s.substr(0, before[0].s.size() - 1) : "") + before[0].s + y);
        } else if (n == "position" && i == 0 && s.chance(60)) {
            std::string x;
            for (auto k = s.range(0, 3); k > 0; --k) x += good[s.idx(8)];
            str(x);
        } else if (n == "rtrim" || n == "ltrim") {
            str(std::string(s.range(0, 3), ' ') + some_text(s) + std::string(s.range(0, 20), s.chance(10) ? '\t' : ' '));
        } else str(some_text(s));
    } else if (t.k == K::octet) {
        if (s.flip()) str(s.bytes(s.chance(20) ? 60 : 9));
    } else if (t.k == K::decimal && s.chance(30)) {
        // results of calculations
        auto e = static_cast<int>(s.range(0, 80)) - 60;
        unsigned __int128 c = (static_cast<unsigned __int128>(s.draw(~0ULL)) << 64 | s.draw(~0ULL)) >> s.range(2, 127);
        if (s.chance(30)) { c = 1; for (auto k = s.range(0, 37); k > 0; --k) c *= 10; c = s.flip() ? c - 1 : c / 2; }
        v.t = triple{c == 0 ? 0 : s.flip() ? 1 : -1, static_cast<u64>(c >> 64), static_cast<u64>(c), e};
    } else if (is_int(t.k) && i > 0 && (n == "round" || n.substr(0, 6) == "substr")) {
        auto top = n == "round" ? 20 : 14;
        if (s.chance(80)) v.i = static_cast<i64>(s.range(0, static_cast<u64>(top))) - (n == "round" ? s.pick({10, 0, 20}) : 2);
        if (n == "round" && s.chance(10)) v.i = s.pick({-38, -39, 38, 39, 15, 16, 18, -18, -19});
    } else if (is_int(t.k) && n == "round" && i == 0 && s.chance(20)) {
        v.i = (t.k == K::int4 ? static_cast<i64>(INT32_MAX) : INT64_MAX) - static_cast<i64>(s.range(0, s.pick({8, 2000, 1000000000})));
        if (s.flip()) v.i = -v.i;
    }
    if ((t.k == K::float4 || t.k == K::float8) && s.chance(40)) {
        auto d = (static_cast<double>(s.range(0, 4000)) - 2000) / s.pick({1.0, 2.0, 4.0, 8.0, 10.0, 100.0, 1000.0});
        if (t.k == K::float4) v.f = static_cast<float>(d);
        else v.d = d;
    }
    return v;
}
}  // namespace

PBT_FACET(values, "each function gives its documented value", "a null, an error, broken or long text, an extreme number or characters of several bytes are involved", .quick = 60000) {
    Eval ev;
    Gen g{s, ev.vars};
    auto const& f = signatures()[s.idx(signatures().size())];
    auto decl = find(f);
    std::vector<V> vals;
    std::vector<M> ms;
    std::vector<Vars::Var*> vs;
    std::vector<Expr> es;
    std::ostringstream str;
    str << f.name << "(";
    bool special = false;
    for (std::size_t i = 0; i < f.args.size(); ++i) {
        auto k = f.args[i];
        auto e = k;
        if (s.chance(20)) {
            if (k == K::int8) e = K::int4;
            if (k == K::decimal) e = s.pick({K::int4, K::int8});
            if (k == K::float8) e = K::float4;
        }
        auto t = g.any_ty(e);
        if (e == K::character || e == K::octet) {
            t.len.reset();
            t.varying = true;
            bool encoding = i == 1 && f.ret != K::int8;
            if (s.chance(25) && !encoding) { t.varying = false; t.len = s.range(1, 24); }
        }
        auto v = argument(s, g, f, i, t, vals);
        if (v.null) v.s.clear();
        vals.push_back(v);
        str << (i ? ", " : "") << v;
        special = special || v.null || v.s.size() > 14 || !utf8m::valid(v.s) || (is_int(e) && std::abs(static_cast<double>(v.i)) > 1e9) || v.s.find('\x81') != std::string::npos;
        ms.push_back(Gen::unify(of(v), ty(k)));
        if (s.flip()) {
            auto& x = ev.vars.make(t);
            x.val = v;
            es.push_back(g.with(t, std::make_shared<sc::variable_reference>(x.var), {}, "").e);
        } else es.push_back(g.with(t, std::make_shared<sc::immediate>(value_of(v), tk(t)), {}, "").e);
    }
    auto n = g.with(ty(f.ret), std::make_shared<sc::function_call>(yugawara::binding::factory{}(decl), std::move(es)), {}, "");
    ev.vars.build(s);
    ev.vars.store(true);
    auto want = expected(f, ms);
    s.note(str.str(), ") gives ", want.free ? "anything" : want.any_error ? "an error" : want.test ? "about it" : tree::cat(want.m));
    if (special || want.any_error || want.m.err) s.nontrivial();
    s.label(tree::cat(f.name, want.free ? " unspecified" : want.any_error || want.m.err ? " error" : want.m.null() && !want.test ? " null" : ""));
    je::evaluator eval{*n.e, *ev.vars.info, ev.vars.host.get()};
    auto got = eval(ev.ctx, ev.vars.view(), ev.mem.get());
    if (want.free) return;
    if (want.any_error && got.error()) return;
    if (want.any_error && (want.m.v.k != K::octet)) PBT_CHECK(got.error(), got, " in place of an error");
    if (want.or_null && got.empty()) return;
    if (want.test) {
        PBT_CHECK(!got.empty() && !got.error(), got, " in place of a number");
        want.test(got);
        return;
    }
    check(got, want.m, f.ret);
}

PBT_FACET(times, "the current time is that of the transaction, in universal or local time", "the offset moves the time to another day or the time is before 1970", .quick = 6000) {
    Eval ev;
    auto offset = static_cast<std::int32_t>(s.range(0, 2 * 18 * 60)) - 18 * 60;
    if (s.chance(20)) offset = 0;
    jogasaki::global::config_pool()->zone_offset(offset);
    constexpr i64 day = 86400LL * 1000000000LL;
    i64 t = s.chance(30) ? static_cast<i64>(s.range(0, 40000)) * day + (s.flip() ? static_cast<i64>(s.range(0, 5)) : -static_cast<i64>(s.range(0, 5))) : static_cast<i64>(s.draw(~0ULL)) / 4;
    if (s.chance(10)) t = -t;
    bool missing = s.chance(3);
    now.reset();
    if (!missing) now = clk::time_point{std::chrono::nanoseconds{t}};
    auto local = t + static_cast<i64>(offset) * 60 * 1000000000LL;
    auto fl_div = [](i64 a, i64 b) { return a / b - (a % b < 0); };
    auto id = s.idx(4);
    std::string name = s.pick({"current_date", "localtime", "current_timestamp", "localtimestamp"});
    (void)id;
    s.note(name, " at ", t, " ns, offset ", offset, " minutes", missing ? " of a transaction without a time" : "");
    if (t < 0 || fl_div(t, day) != fl_div(local, day)) s.nontrivial();
    K k = name == "current_date" ? K::date : name == "localtime" ? K::time_of_day : K::time_point;
    auto decl = find({name, k, {}});
    if (k == K::time_point) PBT_CHECK(decl->return_type() == *tk([&] { Ty x = ty(k); x.off = name == "current_timestamp"; return x; }()), "time zone of ", name);
    any got;
    if (s.flip()) {
        Gen g{s, ev.vars};
        auto n = g.with(ty(k), std::make_shared<sc::function_call>(yugawara::binding::factory{}(decl), std::vector<Expr>{}), {}, "");
        ev.vars.build(s);
        got = je::evaluator{*n.e, *ev.vars.info, ev.vars.host.get()}(ev.ctx, ev.vars.view(), ev.mem.get());
    } else {
        // as the default value of a column
        je::single_function_evaluator one{decl->definition_id(), registry().provider};
        got = one(ev.ctx);
        s.label("default value");
    }
    if (missing) { PBT_CHECK(got.error()); return; }
    V v;
    v.k = k;
    if (k == K::date) v.i = fl_div(local, day);
    else if (k == K::time_of_day) v.i = local - fl_div(local, day) * day;
    else {
        auto x = name == "current_timestamp" ? t : local;
        v.i = fl_div(x, 1000000000);
        v.n = static_cast<std::int32_t>(x - v.i * 1000000000);
    }
    check(got, of(v), k);
}

PBT_FACET(limits, "values too long for their type are refused", "always", .quick = 60) {
    Eval ev;
    bool enc = s.flip();
    std::size_t size = 2 * 1024 * 1024 - 20;
    std::size_t n = size / 4 * 3 + (enc ? s.range(0, 8) - 4 : 0 - s.range(0, 8));
    std::string raw(n, static_cast<char>(s.range(0, 255)));
    raw[s.idx(n)] = 'x';
    auto b = encoded(raw);
    auto decl = find({enc ? "encode" : "decode", enc ? K::character : K::octet, {enc ? K::octet : K::character, K::character}});
    Gen g{s, ev.vars};
    V v;
    v.k = enc ? K::octet : K::character;
    v.s = enc ? raw : b;
    V e;
    e.k = K::character;
    e.s = "base64";
    s.note(enc ? "encoding " : "decoding to ", n, " bytes");
    s.nontrivial();
    std::vector<Expr> es{g.with(ty(v.k), std::make_shared<sc::immediate>(value_of(v), tk(ty(v.k))), {}, "").e, g.with(ty(e.k), std::make_shared<sc::immediate>(value_of(e), tk(ty(e.k))), {}, "").e};
    auto node = g.with(ty(enc ? K::character : K::octet), std::make_shared<sc::function_call>(yugawara::binding::factory{}(decl), std::move(es)), {}, "");
    ev.vars.build(s);
    auto got = je::evaluator{*node.e, *ev.vars.info, ev.vars.host.get()}(ev.ctx, ev.vars.view(), ev.mem.get());
    if ((enc ? b.size() : n) > size) {
        PBT_CHECK(got.error(), "a value of ", enc ? b.size() : n, " bytes");
        PBT_CHECK(got.to<je::error>().kind() == error_kind::error_info_provided && ev.ctx.get_error_info());
        PBT_EQ(ev.ctx.get_error_info()->code(), jogasaki::error_code::value_too_long_exception);
        s.label("refused");
        return;
    }
    PBT_CHECK(!got.error() && !got.empty());
    PBT_CHECK(from_any(got, enc ? K::character : K::octet).s == (enc ? b : raw), "another value");
}

PBT_FACET(repository, "functions of a provider are found by their number", "always", .quick = 2000) {
    auto& r = registry();
    std::set<std::size_t> ids;
    std::size_t n = 0;
    r.provider.each([&](std::shared_ptr<yf::declaration const> const& d) {
        ++n;
        PBT_CHECK(ids.insert(d->definition_id()).second, "two functions of number ", d->definition_id());
        auto const* i = r.repo.find(d->definition_id());
        PBT_CHECK(i, "function ", d->name(), " is not in the repository");
        PBT_CHECK(i->arg_count() <= d->parameter_types().size(), d->name());
    });
    PBT_EQ(n, signatures().size() + 4);
    auto id = s.chance(60) ? 11000 + s.range(0, 70) : s.range(0, 30000);
    s.note("number ", id);
    s.nontrivial();
    auto f = jogasaki::utils::find_function(r.provider, id);
    PBT_EQ(f != nullptr, ids.count(id) > 0);
    if (f) PBT_EQ(f->definition_id(), id);
    PBT_EQ(r.repo.find(id) != nullptr, ids.count(id) > 0);
}
