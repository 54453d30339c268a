// Relational operators (P27): random plans of scans, joins, groups, aggregates and unions against the relational algebra over bags of rows.
#include "table.inc"
#include <jogasaki/utils/field_types.h>
using namespace eng;
namespace {
using Rows = std::vector<Row_>;
std::string canon(V const& v) {
    if (v.null) return "~";
    if (v.k == K::decimal) return cat(tree::Num::of(v.t));
    if (v.k == K::float8 || v.k == K::float4) return cat(v.k == K::float8 ? v.d + 0.0 : static_cast<double>(v.f) + 0.0);
    return cat(v);
}
std::string canon(Row_ const& r) {
    std::string o;
    for (auto& v : r) o += canon(v) + "|";
    return o;
}
// nulls first
int order(V const& a, V const& b) {
    if (a.null || b.null) return static_cast<int>(b.null) - static_cast<int>(a.null);
    return cmp3(a, b);
}
std::string tn(Ty const& t) { return cat(t); }

struct Flow {  // the stream of rows at some place of a plan
    Plan::Proc* q = nullptr;
    tr::expression* last = nullptr;
    std::size_t port = 0;
    std::vector<variable> v{};
    void into(tr::port& in) { last->output_ports()[port] >> in; }
    void then(tr::expression& e) { into(e.input()); last = &e; port = 0; }
};
struct Sort { std::size_t col; bool asc; };
struct Rel {
    std::vector<Ty> t{};
    Rows rows{};
    std::function<Flow(Plan&)> build{};
    std::string str{};
    // the plan may give any choice of rows allowed by the limit
    bool loose = false;
    std::vector<std::size_t> group{};
    std::vector<Sort> sort{};
    std::optional<std::size_t> limit{};
    bool ordered = false;
};
// a condition on a row
struct Cond {
    std::function<int(Row_ const&)> eval{};  // 0, 1 or -1 for unknown
    std::function<Expr(Plan&, std::vector<variable> const&)> build{};
    std::string str{};
};

struct Algebra {
    Src& s;
    Engine e;
    std::deque<Tab> tabs{};
    int joins = 0, groups = 0, forwards = 0;
    bool interesting = false;

    Algebra(Src& src, bool threads) : s(src), e([&](configuration& c) {
        c.single_thread(!threads);
        c.thread_pool_size(4);
        c.default_partitions(static_cast<std::size_t>(src.pick({1, 2, 3, 5})));
        c.scan_block_size(src.pick({0, 1, 2, 100}));
        c.scan_yield_interval(0);
        c.scan_default_parallel(src.pick({0, 0, 2, 3}));
    }) {}
    static std::vector<Ty> const& types() {
        static std::vector<Ty> const all = [] {
            std::vector<Ty> v;
            for (auto k : {K::int4, K::int8, K::character, K::decimal, K::float8, K::date, K::time_point, K::time_of_day}) v.push_back(tree::ty(k));
            v[2].len = 40;
            v[3].prec = 12;
            v[3].scale = 2;
            return v;
        }();
        return all;
    }
    Ty type() { return s.chance(55) ? types()[s.idx(3)] : types()[s.idx(types().size())]; }
    V value(Ty const& t, int nulls = 15) {
        V v;
        v.k = t.k;
        if (s.chance(nulls)) { v.null = true; return v; }
        auto small = static_cast<i64>(s.range(0, 4)) - 1;
        switch (t.k) {
            case K::int4: v.i = s.chance(5) ? small * 10000000 : small; break;
            case K::int8: v.i = s.chance(5) ? small * 1000000000000 : small; break;
            case K::character:
                for (i64 i = 0; i < small; ++i) v.s += static_cast<char>('a' + s.range(0, 1));
                if (s.chance(20)) v.s += "a text too long for a small string";
                break;
            case K::decimal: v.t = from_int(small < 0, static_cast<unsigned __int128>(std::abs(small) * s.pick({50, 100, 1})), 2); break;
            case K::float8: v.d = static_cast<double>(small) / 2; break;
            case K::time_point: v.i = small; v.n = s.pick({0, 0, 1, 999999999}); break;
            case K::time_of_day: v.i = small + 1; break;
            default: v.i = small;
        }
        return v;
    }
    void add(std::string const& name) {
        tabs.emplace_back();
        auto& t = tabs.back();
        t.d.name = name;
        auto n = static_cast<std::size_t>(s.range(1, 4));
        for (std::size_t i = 0; i < n; ++i) {
            Col c;
            c.name = "C" + std::to_string(i);
            c.t = type();
            c.nullable = i > 0;
            t.d.cols.push_back(c);
        }
        if (s.chance(70)) {
            t.d.keys.push_back({0, s.chance(75)});
            if (n > 1 && s.chance(40)) { t.d.cols[1].nullable = false; t.d.keys.push_back({1, s.chance(75)}); }
        }
        if (s.chance(50)) t.secs.push_back(IndexDef{name + "_I", {{s.idx(n), s.chance(75)}}});
        e.must(Engine::create_table(t.d));
        for (auto& x : t.secs) e.must(e.create_index(name, x));
        t.bound(e);
        auto tx = e.begin();
        auto m = s.range(0, 9);
        std::vector<std::size_t> cs;
        for (std::size_t c = 0; c < n; ++c) cs.push_back(c);
        for (i64 i = 0; i < m; ++i) {
            Row_ r;
            std::vector<Engine::Cell> cells;
            for (auto& c : t.d.cols) { r.push_back(value(c.t, c.nullable ? 20 : 0)); cells.push_back({r.back(), c.t}); }
            if (t.cols.size() > n) { V h; h.k = K::int8; h.i = t.cols.back().init + static_cast<i64>(t.rows.size()) * t.cols.back().inc; r.push_back(h); }
            if (t.rows.count(t.key(r))) continue;
            auto x = e.exec(tx, e.insert(name, cs, {cells}));
            PBT_CHECK(x.ok(), "insert: ", x.what());
            t.put(r);
        }
        PBT_CHECK(e.commit(tx) == status::ok, "commit");
        std::string o;
        for (auto& [k, r] : t.rows) o += " " + Tab::show_row(r);
        s.note(t.describe(), ":", o);
    }

    // ---- conditions
    Cond condition(std::vector<Ty> const& t, int depth) {
        if (depth > 0 && s.chance(40)) {
            auto a = condition(t, depth - 1);
            if (s.chance(30)) {
                return {[a](Row_ const& r) { auto x = a.eval(r); return x < 0 ? x : 1 - x; },
                    [a](Plan& p, std::vector<variable> const& v) { return bind<tree::sc::unary>(p, tree::sc::unary_operator::conditional_not, a.build(p, v)); }, cat("not ", a.str)};
            }
            auto b = condition(t, depth - 1);
            bool conj = s.flip();
            return {[=](Row_ const& r) {
                        auto x = a.eval(r), y = b.eval(r);
                        int zero = conj ? 0 : 1;
                        if (x == zero || y == zero) return zero;
                        return x < 0 || y < 0 ? -1 : 1 - zero;
                    },
                [=](Plan& p, std::vector<variable> const& v) { return bind<tree::sc::binary>(p, conj ? tree::sc::binary_operator::conditional_and : tree::sc::binary_operator::conditional_or, a.build(p, v), b.build(p, v)); },
                cat("(", a.str, conj ? " and " : " or ", b.str, ")")};
        }
        auto c = s.idx(t.size());
        auto ty = t[c];
        if (s.chance(20))
            return {[c](Row_ const& r) { return static_cast<int>(r[c].null); },
                [c, ty](Plan& p, std::vector<variable> const& v) { return bind<tree::sc::unary>(p, tree::sc::unary_operator::is_null, p.ref(v[c], ty)); }, cat("#", c, " is null")};
        std::vector<std::size_t> like;
        for (std::size_t i = 0; i < t.size(); ++i) if (i != c && tn(t[i]) == tn(ty)) like.push_back(i);
        if (!like.empty() && s.chance(60)) return compare(static_cast<int>(s.idx(6)), c, ty, static_cast<int>(s.pick(like)), {});
        return compare(static_cast<int>(s.idx(6)), c, ty, -1, value(ty, 3));
    }
    template <class T, class... A>
    static Expr bind(Plan& p, A&&... a) {
        auto x = std::make_shared<T>(std::forward<A>(a)...);
        p.info.bind(*x, tk(tree::ty(K::boolean)));
        return x;
    }
    static Cond compare(int op, std::size_t c, Ty const& ty, int d, V const& v) {
        using o = tree::sc::comparison_operator;
        static o const ops[] = {o::equal, o::not_equal, o::less, o::less_equal, o::greater, o::greater_equal};
        static char const* const names[] = {"=", "<>", "<", "<=", ">", ">="};
        return {[=](Row_ const& r) {
                    auto& a = r[c];
                    auto const& b = d < 0 ? v : r[static_cast<std::size_t>(d)];
                    if (a.null || b.null) return -1;
                    auto x = cmp3(a, b);
                    return static_cast<int>(op == 0 ? x == 0 : op == 1 ? x != 0 : op == 2 ? x < 0 : op == 3 ? x <= 0 : op == 4 ? x > 0 : x >= 0);
                },
            [=](Plan& p, std::vector<variable> const& vs) { return bind<tree::sc::compare>(p, ops[op], p.ref(vs[c], ty), d < 0 ? p.lit(v, ty) : p.ref(vs[static_cast<std::size_t>(d)], ty)); },
            cat("#", c, names[op], d < 0 ? cat(v) : cat("#", d))};
    }
    static Cond both(Cond const& a, Cond const& b) {
        return {[=](Row_ const& r) { auto x = a.eval(r), y = b.eval(r); return x == 0 || y == 0 ? 0 : x < 0 || y < 0 ? -1 : 1; },
            [=](Plan& p, std::vector<variable> const& v) { return bind<tree::sc::binary>(p, tree::sc::binary_operator::conditional_and, a.build(p, v), b.build(p, v)); }, cat(a.str, " and ", b.str)};
    }

    // ---- sources
    Rel scan() {
        Rel r;
        auto ti = s.idx(tabs.size());
        auto& t = tabs[ti];
        std::vector<std::size_t> cs;
        for (std::size_t c = 0; c < t.visible(); ++c) if (s.chance(85) || (cs.empty() && c + 1 == t.visible())) cs.push_back(c);
        for (auto& [k, w] : t.rows) {
            Row_ x;
            for (auto c : cs) x.push_back(w[c]);
            r.rows.push_back(x);
        }
        for (auto c : cs) r.t.push_back(t.cols[c].t);
        auto ix = !t.secs.empty() && s.chance(30) ? t.secs.front().name : t.d.name;
        r.str = cat("scan ", ix);
        r.build = [this, &t, cs, ix](Plan& p) {
            auto tb = e.table(t.d.name);
            Engine::bind_columns(p.info, *tb);
            Flow f;
            f.q = &p.proc();
            std::vector<tr::scan::column> ms;
            for (auto c : cs) {
                f.v.push_back(p.var(t.cols[c].t));
                ms.emplace_back(Engine::col(*tb, c), f.v.back());
            }
            f.last = &f.q->op<tr::scan>(Engine::rel(e.index(ix)), ms, tr::scan::endpoint{}, tr::scan::endpoint{});
            return f;
        };
        return r;
    }
    Rel values() {
        Rel r;
        auto n = s.range(1, 3);
        for (i64 i = 0; i < n; ++i) r.t.push_back(type());
        auto m = s.range(0, 5);
        for (i64 i = 0; i < m; ++i) {
            Row_ x;
            for (auto& t : r.t) x.push_back(value(t));
            r.rows.push_back(x);
        }
        r.str = "values";
        for (auto& x : r.rows) r.str += " " + Tab::show_row(x);
        r.build = [t = r.t, rows = r.rows](Plan& p) {
            Flow f;
            f.q = &p.proc();
            for (auto& x : t) f.v.push_back(p.var(x));
            std::vector<tr::values::row> vs;
            for (auto& row : rows) {
                std::vector<Expr> es;
                for (std::size_t c = 0; c < t.size(); ++c) es.push_back(p.lit(row[c], t[c]));
                vs.emplace_back(std::move(es));
            }
            f.last = &f.q->op<tr::values>(f.v, std::move(vs));
            return f;
        };
        return r;
    }
    // ---- row operators
    Rel filter(Rel a) {
        auto c = condition(a.t, 2);
        Rel r;
        r.t = a.t;
        for (auto& x : a.rows) if (c.eval(x) == 1) r.rows.push_back(x);
        r.str = cat("filter(", a.str, ", ", c.str, ")");
        r.build = [a, c](Plan& p) {
            auto f = a.build(p);
            f.then(f.q->op<tr::filter>(c.build(p, f.v)));
            return f;
        };
        return r;
    }
    // columns of the result: columns of the input or new ones
    struct Pick { int from; V v; int plus; Ty t; };
    static Rel select(Rel a, std::vector<Pick> const& ps) {
        Rel r;
        for (auto& q : ps) r.t.push_back(q.t);
        for (auto& x : a.rows) {
            Row_ y;
            for (auto& q : ps) {
                V v = q.from < 0 ? q.v : x[static_cast<std::size_t>(q.from)];
                if (q.plus >= 0) {
                    auto& w = x[static_cast<std::size_t>(q.plus)];
                    if (v.null || w.null) v.null = true;
                    else v.i += w.i;
                }
                y.push_back(v);
            }
            r.rows.push_back(y);
        }
        r.str = cat("project(", a.str, ",");
        for (auto& q : ps) r.str += q.from < 0 ? cat(" ", q.v) : q.plus < 0 ? cat(" #", q.from) : cat(" #", q.from, "+#", q.plus);
        r.str += ")";
        r.build = [a, ps](Plan& p) {
            auto f = a.build(p);
            std::vector<tr::project::column> cs;
            std::vector<variable> vs;
            for (auto& q : ps) {
                if (q.from >= 0 && q.plus < 0) { vs.push_back(f.v[static_cast<std::size_t>(q.from)]); continue; }
                Expr x;
                if (q.from < 0) x = p.lit(q.v, q.t);
                else {
                    auto b = std::make_shared<tree::sc::binary>(tree::sc::binary_operator::add, p.ref(f.v[static_cast<std::size_t>(q.from)], q.t), p.ref(f.v[static_cast<std::size_t>(q.plus)], q.t));
                    p.info.bind(*b, tk(q.t));
                    x = b;
                }
                vs.push_back(p.var(q.t));
                cs.emplace_back(vs.back(), std::move(x));
            }
            if (!cs.empty()) f.then(f.q->op<tr::project>(std::move(cs)));
            f.v = vs;
            return f;
        };
        return r;
    }
    Rel project(Rel a) {
        std::vector<Pick> ps;
        auto n = s.range(1, 4);
        for (i64 i = 0; i < n; ++i) {
            auto c = s.idx(a.t.size());
            Pick q{static_cast<int>(c), {}, -1, a.t[c]};
            if (s.chance(20)) { q.t = type(); q.v = value(q.t); q.from = -1; }
            else if (tree::is_int(q.t.k)) {
                std::vector<std::size_t> like;
                for (std::size_t d = 0; d < a.t.size(); ++d) if (a.t[d].k == q.t.k) like.push_back(d);
                bool tame = s.chance(40);
                auto d = s.pick(like);
                for (auto& x : a.rows) tame = tame && std::abs(x[c].i) < (1 << 29) && std::abs(x[d].i) < (1 << 29);
                if (tame) q.plus = static_cast<int>(d);
            }
            // the same stream column twice under an exchange is not what a compiler gives
            bool dup = false;
            for (auto& o : ps) dup = dup || (o.from == q.from && q.from >= 0 && o.plus < 0 && q.plus < 0);
            if (!dup) ps.push_back(q);
        }
        return select(std::move(a), ps);
    }
    // a relation with the wanted column types
    Rel shape(Rel a, std::vector<Ty> const& want) {
        std::vector<Pick> ps;
        std::vector<bool> used(a.t.size(), false);
        for (auto& t : want) {
            std::vector<std::size_t> like;
            for (std::size_t d = 0; d < a.t.size(); ++d) if (!used[d] && tn(a.t[d]) == tn(t)) like.push_back(d);
            if (like.empty()) ps.push_back({-1, value(t), -1, t});
            else {
                auto d = s.pick(like);
                used[d] = true;
                ps.push_back({static_cast<int>(d), {}, -1, t});
            }
        }
        return select(std::move(a), ps);
    }
    // ---- exchanges
    static void offer(Plan& p, Flow& f, tp::exchange& x, std::vector<variable> const& dst, std::vector<std::size_t> const& src) {
        (void)p;
        std::vector<tr::step::offer::column> cs;
        for (std::size_t i = 0; i < src.size(); ++i) cs.emplace_back(f.v[src[i]], dst[i]);
        auto& o = f.q->op<tr::step::offer>(yugawara::binding::factory{}(x), cs);
        f.into(o.input());
        tp::connect(*f.q->p, x);
    }
    static std::vector<std::size_t> all(std::size_t n) {
        std::vector<std::size_t> o;
        for (std::size_t i = 0; i < n; ++i) o.push_back(i);
        return o;
    }
    template <class Take>
    static Flow take(Plan& p, Plan::Proc& q, tp::exchange& x, std::vector<variable> const& src, std::vector<Ty> const& t) {
        Flow f;
        f.q = &q;
        std::vector<typename Take::column> cs;
        for (std::size_t i = 0; i < src.size(); ++i) {
            f.v.push_back(p.var(t[i]));
            cs.emplace_back(src[i], f.v.back());
        }
        tp::connect(x, *q.p);
        f.last = &q.op<Take>(yugawara::binding::factory{}(x), cs);
        return f;
    }
    std::vector<std::size_t> some(std::size_t n, std::size_t least, std::size_t most) {
        std::vector<std::size_t> o, from = all(n);
        auto k = std::min<std::size_t>(n, static_cast<std::size_t>(s.range(least, most)));
        for (std::size_t i = 0; i < k; ++i) {
            auto at = s.idx(from.size());
            o.push_back(from[at]);
            from.erase(from.begin() + static_cast<std::ptrdiff_t>(at));
        }
        return o;
    }
    static tp::group& group_exchange(Plan& p, std::vector<variable> const& xs, std::vector<std::size_t> const& keys, std::vector<Sort> const& sort, std::optional<std::size_t> limit, tp::group_mode mode, bool bare) {
        std::vector<variable> cols, ks;
        for (auto k : keys) ks.push_back(xs[k]);
        for (auto& x : xs) if (!bare || std::find(ks.begin(), ks.end(), x) == ks.end()) cols.push_back(x);
        std::vector<tp::group::sort_key> so;
        for (auto& o : sort) so.emplace_back(xs[o.col], o.asc ? tr::sort_direction::ascendant : tr::sort_direction::descendant);
        return p.st->execution_plan().insert<tp::group>(cols, ks, so, limit, mode);
    }
    static std::vector<variable> fresh(Plan& p, std::vector<Ty> const& t) {
        std::vector<variable> o;
        for (auto& x : t) o.push_back(p.var(x));
        return o;
    }
    static std::map<std::string, Rows> by(Rows const& rows, std::vector<std::size_t> const& keys) {
        std::map<std::string, Rows> o;
        for (auto& r : rows) {
            std::string k;
            for (auto c : keys) k += canon(r[c]) + "|";
            o[k].push_back(r);
        }
        return o;
    }
    static void sort_rows(Rows& rows, std::vector<Sort> const& sort) {
        std::stable_sort(rows.begin(), rows.end(), [&](auto& a, auto& b) {
            for (auto& o : sort) if (auto c = order(a[o.col], b[o.col])) return o.asc ? c < 0 : c > 0;
            return false;
        });
    }
    // GROUP, ORDER, LIMIT without aggregation; last: nothing follows it
    Rel grouped(Rel a, bool last) {
        ++groups;
        Rel r;
        r.t = a.t;
        r.group = some(a.t.size(), 0, last && s.chance(60) ? 0 : 2);
        std::vector<std::size_t> rest;
        for (auto c : all(a.t.size())) if (!std::count(r.group.begin(), r.group.end(), c)) rest.push_back(c);
        bool limited = s.chance(50);
        r.loose = last && s.chance(50);
        auto ns = limited && !r.loose ? rest.size() : s.idx(rest.size() + 1);
        for (auto i : some(rest.size(), ns, ns)) r.sort.push_back({rest[i], s.chance(65)});
        if (s.chance(5) && !r.group.empty()) r.sort.push_back({r.group.front(), s.flip()});
        if (limited) r.limit = static_cast<std::size_t>(s.pick({0, 1, 1, 2, 3, 5}));
        if (r.limit && *r.limit == 0) r.limit = 1;
        r.loose = last;
        r.ordered = r.group.empty();
        for (auto& [k, g] : by(a.rows, r.group)) {
            auto x = g;
            sort_rows(x, r.sort);
            if (r.limit && x.size() > *r.limit) x.resize(*r.limit);
            r.rows.insert(r.rows.end(), x.begin(), x.end());
        }
        if (last) r.rows = a.rows;
        r.str = cat("group(", a.str, ", keys");
        for (auto k : r.group) r.str += cat(" #", k);
        r.str += " sort";
        for (auto& k : r.sort) r.str += cat(" #", k.col, k.asc ? "" : " desc");
        if (r.limit) r.str += cat(" limit ", *r.limit);
        r.str += ")";
        r.build = [a, keys = r.group, sort = r.sort, limit = r.limit, bare = s.flip()](Plan& p) {
            auto f = a.build(p);
            auto xs = fresh(p, a.t);
            auto& x = group_exchange(p, xs, keys, sort, limit, tp::group_mode::equivalence, bare);
            offer(p, f, x, xs, all(xs.size()));
            auto g = take<tr::step::take_group>(p, p.proc(), x, xs, a.t);
            g.then(g.q->op<tr::step::flatten>());
            return g;
        };
        return r;
    }
    Rel distinct(Rel a) {
        ++groups;
        Rel r;
        r.t = a.t;
        for (auto& [k, g] : by(a.rows, all(a.t.size()))) r.rows.push_back(g.front());
        r.str = cat("distinct(", a.str, ")");
        r.build = [a, bare = s.flip()](Plan& p) {
            auto f = a.build(p);
            auto xs = fresh(p, a.t);
            auto& x = group_exchange(p, xs, all(xs.size()), {}, 1, tp::group_mode::equivalence, bare);
            offer(p, f, x, xs, all(xs.size()));
            auto g = take<tr::step::take_group>(p, p.proc(), x, xs, a.t);
            g.then(g.q->op<tr::step::flatten>());
            return g;
        };
        return r;
    }
    // ---- aggregates
    struct Call { int fn; int col; std::shared_ptr<yugawara::aggregate::declaration const> d; Ty t; };
    static V aggregate(Call const& c, Rows const& g) {
        V o;
        o.k = c.t.k;
        std::vector<V> vs;
        for (auto& r : g) if (c.col < 0 || !r[static_cast<std::size_t>(c.col)].null) vs.push_back(c.col < 0 ? V{} : r[static_cast<std::size_t>(c.col)]);
        if (c.fn == 0) { o.i = static_cast<i64>(vs.size()); return o; }
        if (c.fn == 4) {
            std::set<std::string> u;
            for (auto& v : vs) u.insert(canon(v));
            o.i = static_cast<i64>(u.size());
            return o;
        }
        if (vs.empty()) { o.null = true; return o; }
        if (c.fn == 1) {
            __int128 n = 0;
            double d = 0;
            for (auto& v : vs) {
                n += v.i;
                d += v.d;
            }
            o.i = static_cast<i64>(n);
            o.d = d;
            return o;
        }
        auto x = vs.front();
        for (auto& v : vs) if (c.fn == 2 ? cmp3(v, x) < 0 : cmp3(v, x) > 0) x = v;
        return x;
    }
    std::vector<Call> calls(std::vector<Ty> const& t, bool step) {
        static char const* const names[] = {"count", "sum", "min", "max", "count$distinct"};
        std::vector<Call> o;
        auto n = s.range(1, 3);
        for (i64 i = 0; i < n; ++i) {
            Call c{static_cast<int>(s.idx(4)), static_cast<int>(s.idx(t.size())), {}, {}};
            if (step) c.fn = 4;
            if (c.fn == 1 && !tree::is_int(t[static_cast<std::size_t>(c.col)].k) && t[static_cast<std::size_t>(c.col)].k != K::float8) c.fn = 3;
            if (c.fn == 0 && s.flip()) c.col = -1;
            for (auto& d : e.db->aggregate_functions()->all) {
                if (d->name() != names[c.fn]) continue;
                auto& ps = d->shared_parameter_types();
                if (ps.size() != (c.col < 0 ? 0U : 1U)) continue;
                if (c.col >= 0 && utils::type_for(*ps[0]).kind() != t[static_cast<std::size_t>(c.col)].k) continue;
                if (c.col >= 0 && (t[static_cast<std::size_t>(c.col)].k == K::time_point || t[static_cast<std::size_t>(c.col)].k == K::time_of_day) && cat(utils::type_for(*ps[0])) != cat(t[static_cast<std::size_t>(c.col)].ft())) continue;
                c.d = d;
            }
            if (!c.d) continue;
            c.t = c.fn == 2 || c.fn == 3 ? t[static_cast<std::size_t>(c.col)] : tree::ty(utils::type_for(c.d->return_type()).kind());
            o.push_back(c);
        }
        return o;
    }
    Rel aggregated(Rel a, bool step) {
        ++groups;
        auto keys = some(a.t.size(), 0, 2);
        auto cs = calls(a.t, step);
        if (cs.empty()) return distinct(std::move(a));
        bool whole = keys.empty() && s.chance(70);
        Rel r;
        for (auto k : keys) r.t.push_back(a.t[k]);
        for (auto& c : cs) r.t.push_back(c.t);
        auto gs = by(a.rows, keys);
        if (whole && gs.empty()) gs[""] = {};
        for (auto& [k, g] : gs) {
            Row_ x;
            for (auto c : keys) x.push_back(g.front()[c]);
            for (auto& c : cs) x.push_back(aggregate(c, g));
            r.rows.push_back(x);
        }
        r.str = cat(step ? "aggregate(" : "incremental(", a.str, ", keys");
        for (auto k : keys) r.str += cat(" #", k);
        for (auto& c : cs) r.str += cat(", ", c.d->name(), "(", c.col, ")");
        r.str += whole ? ", whole)" : ")";
        auto mode = whole ? tp::group_mode::equivalence_or_whole : tp::group_mode::equivalence;
        r.build = [=, bare = s.flip()](Plan& p) {
            auto f = a.build(p);
            yugawara::binding::factory bf{};
            if (step) {
                auto xs = fresh(p, a.t);
                auto& x = group_exchange(p, xs, keys, {}, {}, mode, bare);
                offer(p, f, x, xs, all(xs.size()));
                auto g = take<tr::step::take_group>(p, p.proc(), x, xs, a.t);
                std::vector<variable> out;
                for (auto k : keys) out.push_back(g.v[k]);
                std::vector<tr::step::aggregate::column> ag;
                for (auto& c : cs) {
                    out.push_back(p.var(c.t));
                    std::vector<variable> args;
                    if (c.col >= 0) args.push_back(g.v[static_cast<std::size_t>(c.col)]);
                    ag.emplace_back(bf(c.d), args, out.back());
                }
                g.then(g.q->op<tr::step::aggregate>(std::move(ag)));
                g.v = out;
                return g;
            }
            // source columns of the exchange, and its destination columns
            auto xs = fresh(p, a.t);
            std::vector<variable> dst, ks;
            std::vector<Ty> dt;
            for (auto k : keys) { ks.push_back(xs[k]); dst.push_back(xs[k]); dt.push_back(a.t[k]); }
            std::vector<tp::aggregate::aggregation> ag;
            for (auto& c : cs) {
                dst.push_back(p.var(c.t));
                dt.push_back(c.t);
                std::vector<variable> args;
                if (c.col >= 0) args.push_back(xs[static_cast<std::size_t>(c.col)]);
                ag.emplace_back(bf(c.d), args, dst.back());
            }
            auto& x = p.st->execution_plan().insert<tp::aggregate>(xs, dst, ks, ag, mode);
            offer(p, f, x, xs, all(xs.size()));
            auto g = take<tr::step::take_group>(p, p.proc(), x, dst, dt);
            g.then(g.q->op<tr::step::flatten>());
            return g;
        };
        return r;
    }
    // ---- several inputs
    // the branches of one stream, each filtered in its own way
    Flow branches(Plan& p, Rel const& a, std::vector<Cond> const& cs, std::vector<Flow>& out) {
        auto f = a.build(p);
        auto& b = f.q->op<tr::buffer>(static_cast<int>(cs.size()));
        f.into(b.input());
        for (std::size_t i = 0; i < cs.size(); ++i) {
            Flow g{f.q, &b, i, f.v};
            if (cs[i].eval) g.then(g.q->op<tr::filter>(cs[i].build(p, g.v)));
            out.push_back(g);
        }
        return f;
    }
    struct Inputs {
        std::vector<Rel> in;
        std::function<std::vector<Flow>(Plan&)> build;
        std::string str;
        bool forked = false;
    };
    Inputs inputs(std::size_t n, int depth) {
        Inputs o;
        if (s.chance(25)) {  // from one stream
            auto a = rel(depth);
            std::vector<Cond> cs;
            for (std::size_t i = 0; i < n; ++i) {
                Cond c;
                if (s.chance(60)) c = condition(a.t, 1);
                Rel r;
                r.t = a.t;
                for (auto& x : a.rows) if (!c.eval || c.eval(x) == 1) r.rows.push_back(x);
                o.in.push_back(r);
                cs.push_back(c);
            }
            o.forked = true;
            o.str = cat("fork ", a.str);
            for (auto& c : cs) o.str += c.eval ? cat(" / ", c.str) : " / all";
            o.build = [=](Plan& p) {
                std::vector<Flow> fs;
                branches(p, a, cs, fs);
                return fs;
            };
            return o;
        }
        for (std::size_t i = 0; i < n; ++i) {
            o.in.push_back(rel(depth));
            o.str += (i ? "; " : "") + o.in.back().str;
        }
        o.build = [in = o.in](Plan& p) {
            std::vector<Flow> fs;
            for (auto& r : in) fs.push_back(r.build(p));
            return fs;
        };
        return o;
    }
    Rel united(int depth, bool last) {
        ++forwards;
        auto n = static_cast<std::size_t>(s.range(1, 3));
        auto in = inputs(n, depth);
        Rel r;
        // columns of the union, and where each input has them; other columns are constants
        std::vector<std::vector<int>> at(n);
        for (auto& t : in.in.front().t) {
            if (!r.t.empty() && s.chance(20)) continue;
            bool ok = true;
            std::vector<int> w;
            for (std::size_t i = 0; i < n; ++i) {
                int f = -1;
                for (std::size_t c = 0; c < in.in[i].t.size(); ++c) if (tn(in.in[i].t[c]) == tn(t) && (f < 0 || s.flip())) f = static_cast<int>(c);
                ok = ok && f >= 0;
                w.push_back(f);
            }
            if (!ok) continue;
            r.t.push_back(t);
            for (std::size_t i = 0; i < n; ++i) at[i].push_back(w[i]);
        }
        if (r.t.empty()) return filter(rel(depth));
        for (std::size_t i = 0; i < n; ++i)
            for (auto& x : in.in[i].rows) {
                Row_ y;
                for (auto c : at[i]) y.push_back(x[static_cast<std::size_t>(c)]);
                r.rows.push_back(y);
            }
        if (last && s.chance(60)) { r.limit = static_cast<std::size_t>(s.pick({0, 1, 2, 3, 5, 8})); r.loose = true; }
        r.str = cat("union(", in.str, r.limit ? cat(" limit ", *r.limit) : std::string{}, ")");
        r.build = [=, t = r.t, limit = r.limit](Plan& p) {
            auto fs = in.build(p);
            if (in.forked)  // a process writes to an exchange in one place
                for (std::size_t i = 0; i < fs.size(); ++i) {
                    auto ys = fresh(p, in.in[i].t);
                    auto& y = p.st->execution_plan().insert<tp::forward>(ys);
                    offer(p, fs[i], y, ys, all(ys.size()));
                    fs[i] = take<tr::step::take_flat>(p, p.proc(), y, ys, in.in[i].t);
                }
            auto xs = fresh(p, t);
            auto& x = p.st->execution_plan().insert<tp::forward>(xs, limit);
            for (std::size_t i = 0; i < fs.size(); ++i) offer(p, fs[i], x, xs, {at[i].begin(), at[i].end()});
            return take<tr::step::take_flat>(p, p.proc(), x, xs, t);
        };
        return r;
    }
    Rel joined(int depth) {
        ++joins;
        using jk = tr::join_kind;
        auto kind = s.pick({jk::inner, jk::inner, jk::left_outer, jk::full_outer, jk::semi, jk::anti, jk::left_outer_at_most_one});
        std::size_t n = kind == jk::inner && s.chance(15) ? 3 : 2;
        auto in = inputs(n, depth);
        std::vector<std::vector<std::size_t>> keys(n);
        for (std::size_t c = 0; c < in.in[0].t.size() && keys[0].size() < 2; ++c) {
            std::vector<std::size_t> w{c};
            for (std::size_t i = 1; i < n; ++i) {
                std::vector<std::size_t> like;
                for (std::size_t d = 0; d < in.in[i].t.size(); ++d) if (tn(in.in[i].t[d]) == tn(in.in[0].t[c]) && !std::count(keys[i].begin(), keys[i].end(), d)) like.push_back(d);
                if (like.empty()) break;
                w.push_back(s.pick(like));
            }
            if (w.size() == n && s.chance(75)) for (std::size_t i = 0; i < n; ++i) keys[i].push_back(w[i]);
        }
        std::size_t size = 1;
        for (auto& x : in.in) size *= std::max<std::size_t>(1, x.rows.size());
        if (size > 2000) return scan();
        bool half = kind == jk::semi || kind == jk::anti;
        std::vector<Ty> wide;
        std::vector<std::size_t> base;
        for (auto& x : in.in) { base.push_back(wide.size()); wide.insert(wide.end(), x.t.begin(), x.t.end()); }
        // null keys are equal as group keys only, so the condition has to tell them apart
        bool nulls = false;
        for (std::size_t i = 0; i < n; ++i) for (auto& r : in.in[i].rows) for (auto k : keys[i]) nulls = nulls || r[k].null;
        std::optional<Cond> cond;
        if (s.chance(50)) cond = condition(wide, 2);
        if (nulls || s.chance(10))
            for (std::size_t i = 1; i < n; ++i)
                for (std::size_t k = 0; k < keys[0].size(); ++k) {
                    auto c = compare(0, keys[0][k], wide[keys[0][k]], static_cast<int>(base[i] + keys[i][k]), {});
                    cond = cond ? both(*cond, c) : c;
                }
        auto match = [&](Row_ const& r) {
            for (std::size_t i = 1; i < n; ++i)
                for (std::size_t k = 0; k < keys[0].size(); ++k) if (canon(r[keys[0][k]]) != canon(r[base[i] + keys[i][k]])) return false;
            return !cond || cond->eval(r) == 1;
        };
        auto nothing = [&](Rel const& x) {
            Row_ r;
            for (auto& t : x.t) { V v; v.k = t.k; v.null = true; r.push_back(v); }
            return r;
        };
        auto cat2 = [](Row_ a, Row_ const& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
        Rel r;
        r.t = half ? in.in[0].t : wide;
        bool many = false;
        std::vector<bool> seen(in.in[1].rows.size(), false);
        for (auto& a : in.in[0].rows) {
            std::size_t hits = 0;
            for (std::size_t j = 0; j < in.in[1].rows.size(); ++j) {
                auto ab = cat2(a, in.in[1].rows[j]);
                if (n == 3) {
                    for (auto& c : in.in[2].rows) if (auto abc = cat2(ab, c); match(abc)) r.rows.push_back(abc);
                    continue;
                }
                if (!match(ab)) continue;
                ++hits;
                seen[j] = true;
                if (!half) r.rows.push_back(ab);
            }
            if (n == 3) continue;
            many = many || hits > 1;
            if (half && (hits != 0) == (kind == jk::semi)) r.rows.push_back(a);
            if (hits == 0 && (kind == jk::left_outer || kind == jk::full_outer || kind == jk::left_outer_at_most_one)) r.rows.push_back(cat2(a, nothing(in.in[1])));
        }
        if (kind == jk::full_outer) for (std::size_t j = 0; j < seen.size(); ++j) if (!seen[j]) r.rows.push_back(cat2(nothing(in.in[0]), in.in[1].rows[j]));
        if (kind == jk::left_outer_at_most_one && many) kind = jk::left_outer;
        r.str = cat("join", static_cast<int>(kind), "(", in.str, ", keys");
        for (std::size_t k = 0; k < keys[0].size(); ++k) for (std::size_t i = 0; i < n; ++i) r.str += cat(i ? "=" : " ", "#", base[i] + keys[i][k]);
        if (cond) r.str += cat(", on ", cond->str);
        r.str += ")";
        std::vector<std::vector<Sort>> sorts(n);
        for (std::size_t i = 0; i < n; ++i) if (s.chance(20)) sorts[i].push_back({s.idx(in.in[i].t.size()), s.flip()});
        r.build = [=, wide = wide, bare = s.flip()](Plan& p) {
            auto fs = in.build(p);
            std::vector<std::vector<variable>> xs;
            std::vector<tp::group*> es;
            for (std::size_t i = 0; i < n; ++i) {
                xs.push_back(fresh(p, in.in[i].t));
                es.push_back(&group_exchange(p, xs[i], keys[i], sorts[i], {}, tp::group_mode::equivalence, bare));
                offer(p, fs[i], *es[i], xs[i], all(xs[i].size()));
            }
            Flow f;
            f.q = &p.proc();
            std::vector<tr::step::take_cogroup::group> gs;
            for (std::size_t i = 0; i < n; ++i) {
                std::vector<tr::step::take_cogroup::column> cs;
                for (std::size_t c = 0; c < xs[i].size(); ++c) {
                    f.v.push_back(p.var(in.in[i].t[c]));
                    cs.emplace_back(xs[i][c], f.v.back());
                }
                tp::connect(*es[i], *f.q->p);
                gs.emplace_back(yugawara::binding::factory{}(*es[i]), cs);
            }
            f.last = &f.q->op<tr::step::take_cogroup>(std::move(gs));
            f.then(f.q->op<tr::step::join>(kind, cond ? cond->build(p, f.v) : Expr{}));
            if (half) f.v.resize(in.in[0].t.size());
            return f;
        };
        return r;
    }
    // join with the rows of an index
    Rel looked_up(Rel a) {
        using jk = tr::join_kind;
        auto ti = s.idx(tabs.size());
        auto& t = tabs[ti];
        bool sec = !t.secs.empty() && s.chance(40);
        auto keys = sec ? t.secs.front().keys : t.pk;
        bool whole = s.chance(40);
        std::size_t m = whole ? keys.size() : 1;
        std::vector<int> from;
        for (std::size_t k = 0; k < m; ++k) {
            int f = -1;
            for (std::size_t c = 0; c < a.t.size(); ++c) if (tn(a.t[c]) == tn(t.cols[keys[k].col].t) && (f < 0 || s.flip())) f = static_cast<int>(c);
            if (f < 0) return filter(std::move(a));
            from.push_back(f);
        }
        if (a.rows.size() * t.rows.size() > 1500) return filter(std::move(a));
        auto kind = s.pick({jk::inner, jk::left_outer, jk::semi, jk::anti});
        bool half = kind == jk::semi || kind == jk::anti;
        std::vector<Ty> wide = a.t;
        for (std::size_t c = 0; c < t.visible(); ++c) wide.push_back(t.cols[c].t);
        std::optional<Cond> cond;
        if (s.chance(40)) cond = condition(wide, 1);
        Rel r;
        r.t = half ? a.t : wide;
        for (auto& x : a.rows) {
            std::size_t hits = 0;
            for (auto& [k, y] : t.rows) {
                bool ok = true;
                for (std::size_t i = 0; i < m; ++i) {
                    auto& l = x[static_cast<std::size_t>(from[i])];
                    auto& w = y[keys[i].col];
                    ok = ok && !l.null && !w.null && canon(l) == canon(w);
                }
                if (!ok) continue;
                auto z = x;
                for (std::size_t c = 0; c < t.visible(); ++c) z.push_back(y[c]);
                if (cond && cond->eval(z) != 1) continue;
                ++hits;
                if (!half) r.rows.push_back(z);
            }
            if (half && (hits != 0) == (kind == jk::semi)) r.rows.push_back(x);
            if (kind == jk::left_outer && !hits) {
                auto z = x;
                for (std::size_t c = 0; c < t.visible(); ++c) { V v; v.k = t.cols[c].t.k; v.null = true; z.push_back(v); }
                r.rows.push_back(z);
            }
        }
        bool find = m == keys.size() && s.flip();
        r.str = cat(find ? "find" : "lookup", static_cast<int>(kind), "(", a.str, ", ", sec ? t.secs.front().name : t.d.name, " by");
        for (auto f : from) r.str += cat(" #", f);
        if (cond) r.str += cat(", on ", cond->str);
        r.str += ")";
        r.build = [=, &t, this](Plan& p) {
            auto f = a.build(p);
            auto tb = e.table(t.d.name);
            Engine::bind_columns(p.info, *tb);
            auto ix = Engine::rel(e.index(sec ? t.secs.front().name : t.d.name));
            auto left = f.v;
            auto w = f.v;
            for (std::size_t c = 0; c < t.visible(); ++c) w.push_back(p.var(t.cols[c].t));
            auto run = [&](auto tag, auto&& make) {
                using Op = std::remove_pointer_t<decltype(tag)>;
                std::vector<typename Op::column> cs;
                for (std::size_t c = 0; c < t.visible(); ++c) cs.emplace_back(Engine::col(*tb, c), w[left.size() + c]);
                std::vector<typename Op::key> a1, a2;
                for (std::size_t i = 0; i < m; ++i) {
                    a1.emplace_back(Engine::col(*tb, keys[i].col), p.ref(left[static_cast<std::size_t>(from[i])], t.cols[keys[i].col].t));
                    a2.emplace_back(Engine::col(*tb, keys[i].col), p.ref(left[static_cast<std::size_t>(from[i])], t.cols[keys[i].col].t));
                }
                make(std::move(cs), std::move(a1), std::move(a2));
            };
            Expr c = cond ? cond->build(p, w) : Expr{};
            if (find) run(static_cast<tr::join_find*>(nullptr), [&](auto cs, auto a1, auto) { f.then(f.q->template op<tr::join_find>(kind, ix, cs, std::move(a1), c)); });
            else run(static_cast<tr::join_scan*>(nullptr), [&](auto cs, auto a1, auto a2) {
                f.then(f.q->template op<tr::join_scan>(kind, ix, cs, tr::join_scan::endpoint{std::move(a1), tr::endpoint_kind::prefixed_inclusive}, tr::join_scan::endpoint{std::move(a2), tr::endpoint_kind::prefixed_inclusive}, c));
            });
            f.v = half ? left : w;
            return f;
        };
        return r;
    }
    Rel rel(int depth, bool last = false) {
        auto w = depth <= 0 ? s.range(0, 1) : s.range(2, 20);
        switch (w) {
            case 0: return s.chance(25) ? values() : scan();
            case 1: return scan();
            case 2: return values();
            case 3: case 4: return filter(rel(depth - 1));
            case 5: case 6: return project(rel(depth - 1));
            case 7: case 8: return grouped(rel(depth - 1), last);
            case 9: return distinct(rel(depth - 1));
            case 10: case 11: return aggregated(rel(depth - 1), false);
            case 12: case 13: return aggregated(rel(depth - 1), true);
            case 14: case 15: return united(depth - 1, last);
            case 16: case 17: return looked_up(rel(depth - 1));
            default: return joined(depth - 1);
        }
    }
    Stmt statement(Rel const& r) {
        return e.plan([r](Plan& p) {
            auto f = r.build(p);
            std::vector<tr::emit::column> cs;
            for (std::size_t i = 0; i < f.v.size(); ++i) cs.emplace_back(f.v[i], "c" + std::to_string(i));
            f.then(f.q->op<tr::emit>(cs));
        });
    }
    void check(Rel const& r, Rows const& got) {
        std::map<std::string, int> have;
        for (auto& x : got) {
            PBT_EQ(x.size(), r.t.size(), "columns of the result");
            ++have[canon(x)];
        }
        if (!r.loose) {
            std::map<std::string, int> want;
            for (auto& x : r.rows) ++want[canon(x)];
            for (auto& [k, n] : want) PBT_EQ(have[k], n, "rows ", k, " in the result of ", got.size(), " rows, ", r.rows.size(), " expected");
            PBT_EQ(got.size(), r.rows.size(), "rows of the result");
            return;
        }
        // any choice the limit allows
        auto src = by(r.rows, r.group);
        auto mine = by(got, r.group);
        for (auto& [k, g] : src) {
            auto x = g;
            sort_rows(x, r.sort);
            auto n = r.limit ? std::min(*r.limit, x.size()) : x.size();
            auto& y = mine[k];
            PBT_EQ(y.size(), n, "rows of the group ", k);
            std::map<std::string, int> bag;
            for (auto& z : x) ++bag[canon(z)];
            for (auto& z : y) PBT_CHECK(bag[canon(z)]-- > 0, "the row ", canon(z), " appears too often");
            // the order of one group is kept in the result
            if (!r.ordered) sort_rows(y, r.sort);
            for (std::size_t i = 0; i < n; ++i)
                for (auto& o : r.sort) PBT_EQ(canon(y[i][o.col]), canon(x[i][o.col]), "sort column #", o.col, " of row ", i, " of the group ", k);
        }
        PBT_EQ(mine.size(), src.size(), "groups");
    }
    void run(int queries) {
        auto nt = s.range(1, 3);
        for (i64 i = 0; i < nt; ++i) add("T" + std::to_string(i));
        auto kind = s.pick({transaction_type_kind::occ, transaction_type_kind::rtx});
        auto tx = e.begin(api::transaction_option{kind, {}, "", {}, {}, false, s.chance(50) ? std::optional<std::uint32_t>(static_cast<std::uint32_t>(s.pick({0, 2, 5}))) : std::nullopt});
        for (int i = 0; i < queries; ++i) {
            joins = groups = forwards = 0;
            auto r = rel(static_cast<int>(s.range(1, 4)), true);
            if (r.rows.size() > 400) continue;
            s.note(r.str);
            auto x = e.exec(tx, statement(r));
            PBT_CHECK(x.ok(), x.what());
            PBT_CHECK(x.has_rows, "no result");
            PBT_EQ(fake::st().open_iterators, 0U, "iterators left open");
            check(r, x.rows);
            PBT_EQ(x.count(counter_kind::fetched), static_cast<i64>(x.rows.size()), "rows counted as fetched");
            if (joins + groups + forwards >= 2 && x.rows.size() > 1) interesting = true;
            s.label(cat(joins ? "join " : "", groups ? "group " : "", forwards ? "forward" : ""));
        }
        PBT_CHECK(e.commit(tx) == status::ok, "commit");
        if (interesting) s.nontrivial();
    }
};
PBT_FACET(f_algebra, "plans of joins, groups, aggregates and unions give the rows of the relational algebra", "a plan with at least two joins, groups or unions gave more than one row", .quick = 12000, .hang_s = 120) { Algebra{s, false}.run(static_cast<int>(s.range(1, 4))); }
PBT_FACET(f_algebra_threads, "so they do on several workers", "a plan with at least two joins, groups or unions gave more than one row", .quick = 2000, .hang_s = 120, .nondet = true) { Algebra{s, true}.run(static_cast<int>(s.range(1, 4))); }
}  // namespace
