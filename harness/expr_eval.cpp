// P21: evaluation of scalar expressions.
#include <takatori/scalar/binary.h>
#include <takatori/scalar/cast.h>
#include <takatori/scalar/coalesce.h>
#include <takatori/scalar/compare.h>
#include <takatori/scalar/conditional.h>
#include <takatori/scalar/function_call.h>
#include <takatori/scalar/immediate.h>
#include <takatori/scalar/match.h>
#include <takatori/scalar/unary.h>
#include <takatori/scalar/variable_reference.h>
#include <jogasaki/datastore/assign_lob_id.h>
#include <jogasaki/datastore/find_path_by_lob_id.h>
#include <jogasaki/datastore/register_lob.h>
#include <jogasaki/executor/expr/details/decimal_context.h>
#include <jogasaki/utils/read_lob_file.h>
#include <thread>
#include "tree.h"
#include "globals.inc"
#include "no_request.inc"
#include "no_lobs.inc"
#include "utf8_model.h"

using namespace tree;

namespace jogasaki::global {
executor::function::scalar_function_repository& scalar_function_repository() {
    static auto r = [] {
        executor::function::scalar_function_repository x{};
        add_functions(x);
        return x;
    }();
    return r;
}
}  // namespace jogasaki::global

namespace {
// a transaction nobody looks into
jogasaki::transaction_context* some_tx() {
    static char c[8];
    return reinterpret_cast<jogasaki::transaction_context*>(c);
}
auto* pool() { return &jogasaki::global::page_pool(jogasaki::global::pool_operation::get); }

struct Eval {
    std::unique_ptr<jogasaki::memory::lifo_paged_memory_resource> mem = std::make_unique<jogasaki::memory::lifo_paged_memory_resource>(pool());
    evaluator_context ctx{mem.get(), some_tx()};
    Vars vars{};
};
}  // namespace

PBT_FACET(trees, "expressions give their SQL value", "an error, a null and another operator are involved", .quick = 40000) {
    auto& c = *jogasaki::global::config_pool();
    c.support_boolean(true);
    c.enable_blob_cast(true);
    Eval ev;
    Gen g{s, ev.vars, s.pick({0, 10, 25})};
    auto k = g.any_kind(true);
    auto n = g.gen(k, static_cast<int>(s.range(1, 4)));
    ev.vars.build(s);
    je::evaluator eval{*n.e, *ev.vars.info, ev.vars.host.get()};
    auto policy = s.pick({loss_precision_policy::implicit, loss_precision_policy::ignore, loss_precision_policy::error, loss_precision_policy::warn});
    ev.ctx.set_loss_precision_policy(policy);
    auto rows = s.range(1, 3);
    bool thread = s.chance(4);
    s.note(n.str);
    for (u64 r = 0; r < rows; ++r) {
        for (auto& v : ev.vars.vars) if (r == 0 || !v.host) v.val = g.value(v.t);
        ev.vars.store(r == 0);
        M want;
        try {
            want = n.eval();
        } catch (Undefined const&) {
            s.label("undefined");
            continue;
        }
        std::ostringstream vs;
        for (auto& v : ev.vars.vars) vs << " v" << *v.var.shared_entity() << "=" << v.val;
        s.note("row", vs.str(), " gives ", want);
        if (n.str.size() > 20 && (want.err || want.null() || n.str.find("null") != std::string::npos)) s.nontrivial();
        s.label(want.err ? "error" : want.null() ? "null" : "value");
        any got;
        auto work = [&] { got = eval(ev.ctx, ev.vars.view(), ev.mem.get()); };
        if (thread) std::thread{work}.join();
        else work();
        check(got, want, k);
        PBT_EQ(ev.ctx.get_loss_precision_policy(), policy);
        PBT_CHECK(!want.err || !got.error() || got.to<je::error>().kind() != error_kind::undefined);
        if (s.chance(20)) check(eval(ev.ctx, ev.vars.view(), ev.mem.get()), want, k);
    }
}

PBT_FACET(conditions, "a condition holds only when it is true, and leaves no memory behind", "the condition is null or an error, or works on strings", .quick = 8000) {
    jogasaki::global::config_pool()->support_boolean(true);
    Eval ev;
    Gen g{s, ev.vars, s.pick({10, 25})};
    auto n = g.gen(K::boolean, static_cast<int>(s.range(1, 3)));
    ev.vars.build(s);
    je::evaluator eval{*n.e, *ev.vars.info, ev.vars.host.get()};
    for (auto& v : ev.vars.vars) v.val = g.value(v.t);
    ev.vars.store(true);
    M want;
    try {
        want = n.eval();
    } catch (Undefined const&) {
        return;
    }
    s.note(n.str, " gives ", want);
    if (want.err || want.null() || n.str.find("||") != std::string::npos) s.nontrivial();
    (void)ev.mem->allocate(s.range(1, 100), 1);
    auto before = ev.mem->get_checkpoint();
    auto got = je::evaluate_bool(ev.ctx, eval, ev.vars.view(), ev.mem.get());
    if (want.null() && !want.err) want = boolean(false);
    check(got, want, K::boolean);
    PBT_CHECK(before == ev.mem->get_checkpoint(), "evaluating a condition left memory behind");
}

PBT_FACET(refused, "operands of types an operator does not take are refused", "always", .quick = 8000) {
    jogasaki::global::config_pool()->support_boolean(true);
    Eval ev;
    Gen g{s, ev.vars, 10};
    g.calls = false;
    using b = sc::binary_operator;
    using u = sc::unary_operator;
    using c = sc::comparison_operator;
    auto k = g.any_kind(true), l = s.chance(50) ? k : g.any_kind(true);
    auto x = g.gen(k, 1), y = g.gen(l, 1);
    Expr e;
    bool fits = true, unary = false;
    switch (s.idx(4)) {
        case 0: {
            auto op = s.pick({b::add, b::subtract, b::multiply, b::divide, b::remainder});
            fits = is_num(k) && is_num(l) && (op != b::remainder || !is_float(promoted(k, l)));
            e = std::make_shared<sc::binary>(op, x.e, y.e);
            break;
        }
        case 1: {
            auto op = s.pick({c::equal, c::not_equal, c::less, c::less_equal, c::greater, c::greater_equal, c::is_distinct_from, c::is_not_distinct_from});
            fits = (is_num(k) && is_num(l)) || (k == l && k != K::boolean && k != K::blob && k != K::clob);
            e = std::make_shared<sc::compare>(op, x.e, y.e);
            break;
        }
        case 2: {
            fits = k == K::boolean && l == K::boolean;
            e = std::make_shared<sc::binary>(s.flip() ? b::conditional_and : b::conditional_or, x.e, y.e);
            break;
        }
        default: {
            unary = true;
            bool minus = s.flip();
            fits = minus ? is_num(k) : k == K::boolean;
            e = std::make_shared<sc::unary>(minus ? u::sign_inversion : u::conditional_not, x.e);
        }
    }
    if (fits) return;
    s.nontrivial();
    ev.vars.build(s);
    for (auto& v : ev.vars.vars) v.val = g.value(v.t);
    ev.vars.store(true);
    M a, d;
    try {
        a = x.eval();
        d = unary ? a : y.eval();
    } catch (Undefined const&) {
        return;
    }
    s.note(x.str, " with ", y.str);
    je::evaluator eval{*e, *ev.vars.info, ev.vars.host.get()};
    auto got = eval(ev.ctx, ev.vars.view(), ev.mem.get());
    if (a.err || d.err) { check(got, Gen::bad(a, d), K::int4); return; }
    if (a.null() || d.null()) return;  // the types need not be looked at
    if (got.error()) { PBT_EQ(got.to<je::error>().kind(), error_kind::unsupported); return; }
    // AND and OR are decided by the operand that is boolean
    PBT_CHECK((k == K::boolean) != (l == K::boolean), got, " from ", a, " and ", d);
    check(got, k == K::boolean ? a : d, K::boolean);
}

namespace {
std::vector<std::string> chars(std::string_view t) {
    std::vector<std::string> r;
    for (std::size_t i = 0; i < t.size();) {
        auto n = utf8m::strict_len(t, i);
        r.emplace_back(t.substr(i, n));
        i += n;
    }
    return r;
}
struct Tok { int kind = 0; std::string c{}; };  // 0 literal, 1 `_`, 2 `%`
bool match(std::vector<std::string> const& in, std::vector<Tok> const& p) {
    std::vector<std::vector<char>> d(p.size() + 1, std::vector<char>(in.size() + 1));
    d[0][0] = 1;
    for (std::size_t i = 1; i <= p.size(); ++i)
        for (std::size_t j = 0; j <= in.size(); ++j) {
            auto const& t = p[i - 1];
            if (t.kind == 2) d[i][j] = d[i - 1][j] || (j > 0 && d[i][j - 1]);
            else d[i][j] = j > 0 && d[i - 1][j - 1] && (t.kind == 1 || t.c == in[j - 1]);
        }
    return d[p.size()][in.size()];
}
Node text_leaf(Gen& g, std::string v, bool null) {
    V x;
    x.k = K::character;
    x.s = std::move(v);
    x.null = null;
    auto t = ty(K::character);
    return g.with(t, std::make_shared<sc::immediate>(value_of(x), tk(t)), [m = of(x)] { return m; }, tree::cat(x));
}
}  // namespace

PBT_FACET(like, "LIKE matches whole strings by characters", "the pattern has wildcards and the input several bytes per character, or an escape is used, or something is not UTF-8", .quick = 60000) {
    Eval ev;
    Gen g{s, ev.vars};
    g.calls = false;
    // few different characters, so that there are matches
    std::vector<std::string> al = {"a", "b", "あ", "い", "%", "_", "é", "\xF0\x9F\x98\x80", "\\"};
    auto m = s.range(2, al.size());
    auto ch = [&] { return al[s.idx(m)]; };
    std::string in, pat, esc;
    auto n = s.range(0, 8);
    for (u64 i = 0; i < n; ++i) in += ch();
    auto w = s.range(0, 99);
    if (w < 40) esc = "";
    else if (w < 90) esc = s.pick<std::string>({"\\", "a", "%", "_", "あ", "\xF0\x9F\x98\x80", "b"});
    else if (w < 95) esc = s.pick<std::string>({"ab", "ああ", "a\xE3"});
    else esc = s.pick<std::string>({"\xE3\x81", "\x80", "\xff"});
    if (s.flip()) {  // a pattern derived from the input
        for (auto const& c : chars(in)) {
            auto x = s.range(0, 9);
            if (x < 3) pat += "_";
            else if (x < 5) pat += "%";
            else if (x < 6) pat += "%" + c;
            else if (x < 9) pat += (!esc.empty() && (c == esc || c == "%" || c == "_") ? esc : "") + c;
        }
        if (s.chance(30)) pat += "%";
    } else {
        auto k = s.range(0, 8);
        for (u64 i = 0; i < k; ++i) pat += s.chance(25) ? "%" : s.chance(35) ? "_" : s.chance(15) ? esc : ch();
    }
    auto broken = [&](std::string& t) { auto i = s.idx(t.size() + 1); t.insert(i, s.pick<std::string>({"\x80", "\xE3\x81", "\xff", "\xF0\x9F"})); };
    if (s.chance(4)) broken(in);
    if (s.chance(4)) broken(pat);
    bool ni = s.chance(3), np = s.chance(3), ne = s.chance(3);
    auto a = text_leaf(g, in, ni), b = text_leaf(g, pat, np), c = text_leaf(g, esc, ne);
    auto e = std::make_shared<sc::match>(sc::match_operator::like, a.e, b.e, c.e);
    ev.vars.info->bind(*e, tk(ty(K::boolean)));
    je::evaluator eval{*e, *ev.vars.info};
    ev.vars.build(s);
    s.note(a.str, " LIKE ", b.str, " ESCAPE ", c.str);
    auto got = eval(ev.ctx, ev.vars.view(), ev.mem.get());
    bool valid = utf8m::valid(in) && utf8m::valid(pat) && utf8m::valid(esc);
    if (ni || np || ne) { s.label("null"); check(got, null(K::boolean), K::boolean); return; }
    if (!valid) {
        s.label("not UTF-8");
        s.nontrivial();
        // null, or an error where there is another reason for it; never an answer
        PBT_CHECK(got.empty() || got.error(), got, " for a string that is not UTF-8");
        if (got.error()) PBT_CHECK(!esc.empty() && got.to<je::error>().kind() == error_kind::invalid_input_value, got);
        return;
    }
    if (chars(esc).size() > 1) { s.label("long escape"); check(got, fail(error_kind::invalid_input_value), K::boolean); return; }
    std::vector<Tok> toks;
    auto cs = chars(pat);
    bool dangling = false;
    for (std::size_t i = 0; i < cs.size(); ++i) {
        if (!esc.empty() && cs[i] == esc) {
            if (i + 1 == cs.size()) { dangling = true; break; }
            toks.push_back({0, cs[++i]});
            s.nontrivial();
        } else toks.push_back({cs[i] == "_" ? 1 : cs[i] == "%" ? 2 : 0, cs[i]});
    }
    std::size_t tail = 0;
    while (!esc.empty() && tail < cs.size() && cs[cs.size() - 1 - tail] == esc) ++tail;
    PBT_EQ(dangling, tail % 2 == 1);  // of the model
    if (dangling) { s.label("dangling escape"); check(got, fail(error_kind::invalid_input_value), K::boolean); return; }
    bool wild = false;
    for (auto& t : toks) wild = wild || t.kind;
    if (wild && in.size() > chars(in).size()) s.nontrivial();
    auto want = match(chars(in), toks);
    s.label(want ? "match" : "no match");
    check(got, boolean(want), K::boolean);
}
