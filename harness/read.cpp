// Reading through indexes (P26): SCAN, FIND and the index joins against the rows of the table model.
#include "table.inc"
using namespace eng;
namespace {
// a part of an index: equality on leading columns, then bounds on the next one
struct Range {
    std::vector<KeyRef> keys{};  // of the index
    std::size_t eq = 0;
    bool lo = false, hi = false, lo_in = true, hi_in = true;
    std::vector<int> from{};     // per column, the left variable it comes from or -1
    std::vector<V> v{};
    V lov{}, hiv{};
    int lofrom = -1, hifrom = -1;
    std::vector<Ty> tys{};       // of the key expressions
    [[nodiscard]] bool trailing() const { return lo || hi; }
};
struct Reads {
    Src& s;
    Engine e;
    std::deque<Tab> tabs{};
    std::vector<std::vector<std::vector<V>>> pool{};  // per table and column

    explicit Reads(Src& src) : s(src), e([&](configuration& c) {
        c.scan_block_size(src.pick({0, 1, 1, 2, 5, 100}));
        c.scan_yield_interval(0);
        c.scan_default_parallel(src.pick({0, 0, 1, 2, 3, 8}));
        c.key_distribution(src.flip() ? key_distribution_kind::uniform : key_distribution_kind::simple);
    }) {}

    void add(std::string const& name) {
        tabs.push_back(gen_table(s, name, false, true));
        auto& t = tabs.back();
        e.must(Engine::create_table(t.d));
        for (auto& x : t.secs) e.must(e.create_index(name, x));
        t.bound(e);
        s.note(t.describe());
        pool.emplace_back();
        for (std::size_t c = 0; c < t.visible(); ++c) {
            pool.back().emplace_back();
            auto n = s.range(1, 4);
            for (i64 i = 0; i < n; ++i) {
                V v = gen_value(s, t.cols[c].t, 70);
                v.k = t.cols[c].t.k;
                v.null = false;
                pool.back().back().push_back(stored(t.cols[c].t, v));
            }
        }
    }
    V value(std::size_t ti, std::size_t c, int nulls) {
        auto& t = tabs[ti];
        V v;
        v.k = t.cols[c].t.k;
        if (s.chance(nulls)) { v.null = true; return v; }
        if (c >= pool[ti].size()) { v.i = static_cast<i64>(s.range(0, 12)); return v; }  // the hidden key
        return s.chance(93) ? s.pick(pool[ti][c]) : stored(t.cols[c].t, [&] { V g = gen_value(s, t.cols[c].t, 50); g.k = t.cols[c].t.k; g.null = false; return g; }());
    }
    void fill(std::size_t ti, Tx const& tx) {
        auto& t = tabs[ti];
        auto n = s.range(0, 14);
        std::vector<std::size_t> cs;
        for (std::size_t c = 0; c < t.visible(); ++c) cs.push_back(c);
        for (i64 i = 0; i < n; ++i) {
            Row_ row;
            for (std::size_t c = 0; c < t.visible(); ++c) row.push_back(value(ti, c, t.cols[c].nullable ? 25 : 0));
            if (t.cols.size() > t.visible()) {
                V h;
                h.k = K::int8;
                auto& hc = t.cols.back();
                h.i = hc.init + static_cast<i64>(t.rows.size()) * hc.inc;
                row.push_back(h);
            }
            if (t.rows.count(t.key(row))) continue;
            std::vector<Engine::Cell> cells;
            for (auto c : cs) cells.push_back({row[c], t.cols[c].t});
            auto r = e.exec(tx, e.insert(t.d.name, cs, {cells}));
            PBT_CHECK(r.ok(), "insert: ", r.what());
            t.put(row);
        }
    }
    // ---- ranges
    // index: -1 for the primary
    Range range(std::size_t ti, int ix, bool find, bool whole, std::size_t left) {
        auto& t = tabs[ti];
        Range r;
        r.keys = ix < 0 ? t.pk : t.secs[static_cast<std::size_t>(ix)].keys;
        r.eq = whole ? r.keys.size() : s.idx(r.keys.size() + 1);
        if (find && r.eq == 0) r.eq = 1;
        auto expr = [&](std::size_t c, int& from, V& v) {
            from = -1;
            v = value(ti, c, 6);
            if (left < tabs.size() && s.chance(80)) {
                std::vector<std::size_t> like;
                auto& l = tabs[left];
                for (std::size_t d = 0; d < l.cols.size(); ++d)
                    if (cat(l.cols[d].t) == cat(t.cols[c].t) || (t.cols[c].t.k == K::int8 && l.cols[d].t.k == K::int4)) like.push_back(d);
                if (!like.empty()) from = static_cast<int>(s.pick(like));
            }
        };
        for (std::size_t k = 0; k < r.eq; ++k) {
            r.from.push_back(-1);
            r.v.emplace_back();
            expr(r.keys[k].col, r.from.back(), r.v.back());
        }
        if (!find && r.eq < r.keys.size()) {
            r.lo = s.flip();
            r.hi = s.flip();
            r.lo_in = s.flip();
            r.hi_in = s.flip();
            if (r.lo) expr(r.keys[r.eq].col, r.lofrom, r.lov);
            if (r.hi) expr(r.keys[r.eq].col, r.hifrom, r.hiv);
        }
        return r;
    }
    static std::string show(Range const& r) {
        std::string o;
        auto one = [](int from, V const& v) { return from < 0 ? cat(v) : cat("left column ", from); };
        for (std::size_t k = 0; k < r.eq; ++k) o += cat(" column ", r.keys[k].col, " = ", one(r.from[k], r.v[k]));
        if (r.lo) o += cat(" column ", r.keys[r.eq].col, r.lo_in ? " >= " : " > ", one(r.lofrom, r.lov));
        if (r.hi) o += cat(" column ", r.keys[r.eq].col, r.hi_in ? " <= " : " < ", one(r.hifrom, r.hiv));
        return o.empty() ? " everything" : o;
    }
    static V of(int from, V const& v, Row_ const* left) { return from < 0 ? v : (*left)[static_cast<std::size_t>(from)]; }
    // the key is looked up as a value of the column's type
    bool in(Tab const& t, Range const& r, Row_ const& row, Row_ const* left) {
        auto cell = [&](std::size_t c, V x) { x.k = t.cols[c].t.k; return t.enc(c, true, x); };
        bool any = r.eq > 0 || r.trailing();
        if (!any) return true;
        for (std::size_t k = 0; k < r.eq; ++k) {
            auto c = r.keys[k].col;
            auto x = of(r.from[k], r.v[k], left);
            if (x.null || row[c].null || t.enc(c, true, row[c]) != cell(c, x)) return false;
        }
        if (!r.trailing()) return true;
        auto c = r.keys[r.eq].col;
        if (row[c].null) return false;
        auto mine = t.enc(c, true, row[c]);
        if (r.lo) {
            auto x = of(r.lofrom, r.lov, left);
            if (x.null) return false;
            auto y = cell(c, x);
            if (r.lo_in ? mine < y : mine <= y) return false;
        }
        if (r.hi) {
            auto x = of(r.hifrom, r.hiv, left);
            if (x.null) return false;
            auto y = cell(c, x);
            if (r.hi_in ? mine > y : mine >= y) return false;
        }
        return true;
    }
    // the rows in the order of the index
    std::vector<Row_> rows(Tab const& t, int ix) const {
        std::vector<std::pair<std::string, Row_>> o;
        for (auto& [k, r] : t.rows) o.emplace_back(ix < 0 ? k : t.secondary(t.secs[static_cast<std::size_t>(ix)], r), r);
        std::sort(o.begin(), o.end(), [](auto& a, auto& b) { return a.first < b.first; });
        std::vector<Row_> w;
        for (auto& [k, r] : o) w.push_back(r);
        return w;
    }
    // ---- the search keys of an operator
    template <class Key>
    void keys(Plan& p, Tab const& t, Range const& r, std::vector<Key>& ks, std::vector<variable> const& lv, Tab const* l) {
        auto tb = e.table(t.d.name);
        for (std::size_t k = 0; k < r.eq; ++k) add_key(p, *tb, t, r.keys[k].col, r.from[k], r.v[k], ks, lv, l);
    }
    template <class Key>
    static void add_key(Plan& p, ys::table const& tb, Tab const& t, std::size_t c, int from, V const& v, std::vector<Key>& ks, std::vector<variable> const& lv, Tab const* l) {
        if (from < 0) ks.emplace_back(Engine::col(tb, c), p.lit(v, t.cols[c].t));
        else ks.emplace_back(Engine::col(tb, c), p.ref(lv[static_cast<std::size_t>(from)], l->cols[static_cast<std::size_t>(from)].t));
    }
    template <class Op>
    std::pair<typename Op::endpoint, typename Op::endpoint> ends(Plan& p, Tab const& t, Range const& r, std::vector<variable> const& lv, Tab const* l) {
        using Key = typename Op::key;
        using EK = tr::endpoint_kind;
        auto tb = e.table(t.d.name);
        std::vector<Key> a, b;
        keys(p, t, r, a, lv, l);
        keys(p, t, r, b, lv, l);
        if (r.lo) add_key(p, *tb, t, r.keys[r.eq].col, r.lofrom, r.lov, a, lv, l);
        if (r.hi) add_key(p, *tb, t, r.keys[r.eq].col, r.hifrom, r.hiv, b, lv, l);
        auto ka = a.empty() ? EK::unbound : r.lo && !r.lo_in ? EK::prefixed_exclusive : EK::prefixed_inclusive;
        auto kb = b.empty() ? EK::unbound : r.hi && !r.hi_in ? EK::prefixed_exclusive : EK::prefixed_inclusive;
        return {typename Op::endpoint{std::move(a), ka}, typename Op::endpoint{std::move(b), kb}};
    }
    static Expr compare(Plan& p, tree::sc::comparison_operator o, Expr a, Expr b) {
        auto c = std::make_shared<tree::sc::compare>(o, std::move(a), std::move(b));
        p.info.bind(*c, tk(tree::ty(K::boolean)));
        return c;
    }
    static std::string image(Tab const& t, std::size_t c, V const& v) { return reference(t.cols[c].t, true, true, v); }

    // ---- one query
    struct Query {
        std::size_t table = 0;
        int index = -1;
        bool find = false, join = false;
        Range r{};
        // the left side of a join
        std::size_t left = 0;
        tr::join_kind kind = tr::join_kind::inner;
        bool cond = false;
        std::size_t ccol = 0;
        int cfrom = -1, cmp = 0;
        V cv{};
    };
    Query query() {
        Query q;
        q.table = s.idx(tabs.size());
        auto& t = tabs[q.table];
        q.index = static_cast<int>(s.idx(t.secs.size() + 1)) - 1;
        q.join = s.chance(45);
        q.find = s.chance(40);
        if (q.join) {
            q.left = s.idx(tabs.size());
            q.kind = s.pick({tr::join_kind::inner, tr::join_kind::left_outer, tr::join_kind::semi, tr::join_kind::anti});
        }
        bool whole = q.find && (q.index < 0 || s.chance(70));
        q.r = range(q.table, q.index, q.find, whole, q.join ? q.left : tabs.size());
        if (q.join && s.chance(50)) {
            q.cond = true;
            q.ccol = s.idx(t.cols.size());
            q.cmp = static_cast<int>(s.range(0, 3));
            q.cv = value(q.table, q.ccol, 5);
            auto& l = tabs[q.left];
            std::vector<std::size_t> like;
            for (std::size_t d = 0; d < l.cols.size(); ++d) if (cat(l.cols[d].t) == cat(t.cols[q.ccol].t)) like.push_back(d);
            if (!like.empty() && s.flip()) q.cfrom = static_cast<int>(s.pick(like));
        }
        static char const* const op[] = {" = ", " < ", " > ", " <> "};
        s.note(q.join ? cat("join kind ", static_cast<int>(q.kind), " of ", tabs[q.left].d.name, " with ") : std::string{}, q.find ? "find in " : "scan of ", q.index < 0 ? t.d.name : t.secs[static_cast<std::size_t>(q.index)].name, ":", show(q.r),
            q.cond ? cat(" on column ", q.ccol, op[q.cmp], q.cfrom < 0 ? cat(q.cv) : cat("left column ", q.cfrom)) : std::string{});
        return q;
    }
    bool on(Query const& q, Row_ const& row, Row_ const& left) const {
        if (!q.cond) return true;
        auto& a = row[q.ccol];
        auto b = of(q.cfrom, q.cv, &left);
        if (a.null || b.null) return false;
        auto c = cmp3(a, b);
        return q.cmp == 0 ? c == 0 : q.cmp == 1 ? c < 0 : q.cmp == 2 ? c > 0 : c != 0;
    }
    // what the query gives, in the order of its scans
    std::vector<std::string> expected(Query const& q, std::set<std::string> const& broken, bool& corrupt) {
        std::vector<std::string> o;
        auto& t = tabs[q.table];
        auto img = [](Tab const& x, Row_ const* r) {
            std::string i;
            V null;
            for (std::size_t c = 0; c < x.visible(); ++c) {
                null.k = x.cols[c].t.k;
                null.null = true;
                i += image(x, c, r ? (*r)[c] : null);
            }
            return i;
        };
        auto right = rows(t, q.index);
        if (!q.join) {
            for (auto& r : right) {
                if (!in(t, q.r, r, nullptr)) continue;
                if (q.table == 0 && broken.count(t.key(r))) {
                    if (q.index >= 0) { corrupt = true; return o; }
                    continue;
                }
                o.push_back(img(t, &r));
            }
            return o;
        }
        auto& l = tabs[q.left];
        for (auto& a : rows(l, -1)) {
            std::size_t n = 0;
            for (auto& r : right) {
                if (!in(t, q.r, r, &a) || !on(q, r, a)) continue;
                ++n;
                if (q.kind == tr::join_kind::inner || q.kind == tr::join_kind::left_outer) o.push_back(img(l, &a) + img(t, &r));
            }
            if ((n == 0 && (q.kind == tr::join_kind::left_outer || q.kind == tr::join_kind::anti)) || (n && q.kind == tr::join_kind::semi)) o.push_back(img(l, &a) + img(t, nullptr));
        }
        return o;
    }
    Stmt statement(Query const& q) {
        return e.plan([this, q](Plan& p) {
            auto& t = tabs[q.table];
            auto tb = e.table(t.d.name);
            auto ix = e.index(q.index < 0 ? t.d.name : t.secs[static_cast<std::size_t>(q.index)].name);
            Engine::bind_columns(p.info, *tb);
            auto& pr = p.proc();
            std::vector<variable> lv, vs;
            std::vector<tr::emit::column> es;
            for (auto& c : t.cols) vs.push_back(p.var(c.t));
            if (!q.join) {
                for (std::size_t c = 0; c < t.visible(); ++c) es.emplace_back(vs[c], t.cols[c].name);
                auto& em = pr.op<tr::emit>(es);
                if (q.find) {
                    std::vector<tr::find::column> cs;
                    for (std::size_t c = 0; c < t.cols.size(); ++c) cs.emplace_back(Engine::col(*tb, c), vs[c]);
                    std::vector<tr::find::key> ks;
                    keys(p, t, q.r, ks, lv, nullptr);
                    auto& f = pr.op<tr::find>(Engine::rel(ix), cs, std::move(ks));
                    f.output() >> em.input();
                } else {
                    std::vector<tr::scan::column> cs;
                    for (std::size_t c = 0; c < t.cols.size(); ++c) cs.emplace_back(Engine::col(*tb, c), vs[c]);
                    auto [a, b] = ends<tr::scan>(p, t, q.r, lv, nullptr);
                    auto& f = pr.op<tr::scan>(Engine::rel(ix), cs, std::move(a), std::move(b));
                    f.output() >> em.input();
                }
                return;
            }
            auto& l = tabs[q.left];
            auto lb = e.table(l.d.name);
            Engine::bind_columns(p.info, *lb);
            std::vector<tr::scan::column> ls;
            for (std::size_t c = 0; c < l.cols.size(); ++c) {
                lv.push_back(p.var(l.cols[c].t));
                ls.emplace_back(Engine::col(*lb, c), lv.back());
                if (c < l.visible()) es.emplace_back(lv.back(), "L" + l.cols[c].name);
            }
            for (std::size_t c = 0; c < t.visible(); ++c) es.emplace_back(vs[c], t.cols[c].name);
            auto& sc = pr.op<tr::scan>(Engine::rel(e.index(l.d.name)), ls, tr::scan::endpoint{}, tr::scan::endpoint{});
            auto& em = pr.op<tr::emit>(es);
            Expr cond;
            if (q.cond) {
                auto& ty = t.cols[q.ccol].t;
                cond = compare(p, std::array{tree::sc::comparison_operator::equal, tree::sc::comparison_operator::less, tree::sc::comparison_operator::greater, tree::sc::comparison_operator::not_equal}[static_cast<std::size_t>(q.cmp)],
                    p.ref(vs[q.ccol], ty), q.cfrom < 0 ? p.lit(q.cv, ty) : p.ref(lv[static_cast<std::size_t>(q.cfrom)], ty));
            }
            if (q.find) {
                std::vector<tr::join_find::column> cs;
                for (std::size_t c = 0; c < t.cols.size(); ++c) cs.emplace_back(Engine::col(*tb, c), vs[c]);
                std::vector<tr::join_find::key> ks;
                keys(p, t, q.r, ks, lv, &l);
                auto& j = pr.op<tr::join_find>(q.kind, Engine::rel(ix), cs, std::move(ks), cond);
                sc.output() >> j.input();
                j.output() >> em.input();
            } else {
                std::vector<tr::join_scan::column> cs;
                for (std::size_t c = 0; c < t.cols.size(); ++c) cs.emplace_back(Engine::col(*tb, c), vs[c]);
                auto [a, b] = ends<tr::join_scan>(p, t, q.r, lv, &l);
                auto& j = pr.op<tr::join_scan>(q.kind, Engine::rel(ix), cs, std::move(a), std::move(b), cond);
                sc.output() >> j.input();
                j.output() >> em.input();
            }
        });
    }
    void run(Tx const& tx, Query const& q, bool parallel, std::set<std::string> const& broken, bool& alive) {
        bool corrupt = false;
        auto want = expected(q, broken, corrupt);
        auto r = e.exec(tx, statement(q));
        PBT_EQ(fake::st().open_iterators, 0U, "iterators left open");
        PBT_CHECK(!fake::st().misuse, fake::st().misuse_what);
        if (!fake::st().delivered.empty()) {
            fake::st().faults.clear();
            s.label("fault");
            PBT_CHECK(!r.ok(), "the query succeeded though the engine failed in ", fake::st().failed.begin()->first);
            PBT_CHECK(r.err != nullptr && r.err->code() != error_code::none, "no error information");
            alive = e.exec(tx, e.select_all(tabs.front().d.name)).ok();
            return;
        }
        fake::st().faults.clear();
        if (corrupt) {
            s.label("corrupt index");
            PBT_CHECK(!r.ok(), "a query over an index entry without its row succeeded");
            PBT_CHECK(r.code() == error_code::secondary_index_corruption_exception, r.what());
            auto again = e.exec(tx, e.select_all(tabs.front().d.name));
            PBT_CHECK(!again.ok() && again.code() == error_code::inactive_transaction_exception, "the transaction goes on after finding a corrupt index: ", again.what());
            alive = false;
            return;
        }
        PBT_CHECK(r.ok(), r.what());
        PBT_CHECK(r.has_rows, "no result");
        std::vector<std::string> got;
        auto& t = tabs[q.table];
        for (auto& row : r.rows) {
            std::string i;
            std::size_t at = 0;
            PBT_EQ(row.size(), t.visible() + (q.join ? tabs[q.left].visible() : 0U), "columns of the result");
            if (q.join) for (std::size_t c = 0; c < tabs[q.left].visible(); ++c) i += image(tabs[q.left], c, row[at++]);
            for (std::size_t c = 0; c < t.visible(); ++c) i += image(t, c, row[at++]);
            got.push_back(i);
        }
        if (parallel) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
        PBT_EQ(got.size(), want.size(), "number of rows");
        for (std::size_t i = 0; i < want.size(); ++i) PBT_EQ(hex(got[i]), hex(want[i]), "row ", i, parallel ? " in order of the values" : "");
        PBT_EQ(r.count(counter_kind::fetched), static_cast<i64>(want.size()), "rows counted as fetched");
        most = std::max(most, want.size());
        for (auto& x : tabs) all = std::max(all, x.rows.size());
        if (want.size() > 1 && q.r.eq + q.r.trailing() > 0) selective = true;
    }
    std::size_t most = 0, all = 0;
    bool selective = false;
};

void arm(Src& s) {
    static char const* const ops[] = {"content_get", "content_scan", "iterator_next", "iterator_get_key", "iterator_get_value"};
    fake::Fault f{ops[s.idx(5)], static_cast<long>(s.range(0, 8)), s.pick({fake::StatusCode::ERR_ABORTED_RETRYABLE, fake::StatusCode::ERR_IO_ERROR, fake::StatusCode::ERR_UNKNOWN})};
    s.note("fault ", f.op, " after ", f.countdown);
    fake::st().faults.push_back(f);
}
void reads(Src& s, bool faults) {
    Reads w{s};
    auto nt = s.range(1, 2);
    for (i64 i = 0; i < nt; ++i) w.add("T" + std::to_string(i));
    {
        auto tx = w.e.begin();
        for (std::size_t i = 0; i < w.tabs.size(); ++i) w.fill(i, tx);
        PBT_CHECK(w.e.commit(tx) == status::ok, "commit");
    }
    std::set<std::string> broken;
    if (faults && s.chance(40) && !w.tabs.front().rows.empty()) {
        auto it = w.tabs.front().rows.begin();
        std::advance(it, s.idx(w.tabs.front().rows.size()));
        broken.insert(it->first);
        w.e.storage(w.tabs.front().d.name)->data.erase(it->first);
        s.note("the row ", Tab::show_row(it->second), " is gone from the primary storage");
    }
    auto ntx = s.range(1, 2);
    for (i64 i = 0; i < ntx; ++i) {
        auto kind = s.pick({transaction_type_kind::occ, transaction_type_kind::rtx, transaction_type_kind::rtx, transaction_type_kind::ltx});
        auto par = s.chance(60) ? std::optional<std::uint32_t>(static_cast<std::uint32_t>(s.pick({0, 1, 2, 4, 9}))) : std::nullopt;
        s.note("begin ", static_cast<int>(kind), par ? cat(" parallel ", *par) : std::string{});
        auto tx = w.e.begin(api::transaction_option{kind, kind == transaction_type_kind::ltx ? std::vector<std::string>{"T0"} : std::vector<std::string>{}, "", {}, {}, false, par});
        bool filling = kind == transaction_type_kind::occ && broken.empty() && s.flip();
        std::vector<std::map<std::string, Row_>> saved;
        for (auto& t : w.tabs) saved.push_back(t.rows);
        if (filling) for (std::size_t t = 0; t < w.tabs.size(); ++t) w.fill(t, tx);
        bool alive = true;
        auto n = s.range(1, 6);
        for (i64 j = 0; j < n && alive; ++j) {
            fake::st().faults.clear();
            fake::st().delivered.clear();
            fake::st().failed.clear();
            auto q = w.query();
            if (!broken.empty() && q.join) continue;
            if (faults && s.chance(40)) arm(s);
            w.run(tx, q, kind == transaction_type_kind::rtx, broken, alive);
            fake::st().faults.clear();
        }
        if (alive) PBT_CHECK(w.e.commit(tx) == status::ok, "commit");
        else for (std::size_t t = 0; t < w.tabs.size(); ++t) w.tabs[t].rows = saved[t];
    }
    if (w.selective && w.all >= 4) s.nontrivial();
}
PBT_FACET(f_reads, "scans, finds and index joins give exactly the rows of their range", "at least four rows were stored and a query with a search key gave more than one", .quick = 20000, .hang_s = 120) { reads(s, false); }
PBT_FACET(f_reads_faults, "a read that fails says so and leaves nothing open", "at least four rows were stored and a query with a search key gave more than one", .quick = 4000, .hang_s = 120) { reads(s, true); }
}  // namespace
