// P24: statements that change rows, against a model of the table; storages are compared byte by byte.
#include "table.inc"
using namespace eng;
namespace {
using Codes = std::set<error_code>;
struct Expect {
    bool refused = false;   // by the compiler; the transaction goes on
    Codes errors{};         // the statement fails with one of these and the transaction is aborted
    i64 inserted = 0, merged = 0, updated = 0, deleted = 0;
};

struct World {
    Src& s;
    Engine e;
    std::deque<Tab> tabs{};
    std::vector<std::map<std::string, Row_>> saved{};
    struct SeqState { bool fresh = true; i64 v = 0; };

    explicit World(Src& src) : s(src), e([&](configuration& c) { c.try_insert_on_upserting_secondary(src.flip()); }) {}

    void add(std::string const& name, bool defaults = true) {
        tabs.push_back(gen_table(s, name, defaults));
        auto& t = tabs.back();
        s.note(t.describe());
        e.must(Engine::create_table(t.d));
        t.bound(e);
        for (auto& x : t.secs) e.must(e.create_index(name, x));
    }
    // ---- sequences
    executor::sequence::sequence* seq(Tab const& t, std::size_t c) {
        auto tb = e.table(t.d.name);
        auto d = tb->columns()[c].default_value().element<ys::column_value_kind::sequence>();
        auto id = d->definition_id();
        PBT_CHECK(id.has_value(), "a sequence without an id");
        auto* q = e.db->sequence_manager()->find_sequence(*id);
        PBT_CHECK(q != nullptr, "no sequence ", *id);
        return q;
    }
    std::map<std::size_t, SeqState> sequences(Tab const& t) {
        std::map<std::size_t, SeqState> r;
        for (std::size_t c = 0; c < t.cols.size(); ++c)
            if (t.cols[c].def == Def::sequence) {
                auto g = seq(t, c)->get();
                r[c] = {g.version_ <= 1, g.value_};
            }
        return r;
    }
    static bool next(Col const& c, SeqState& st, i64& out) {
        if (st.fresh) { st = {false, c.init}; out = st.v; return true; }
        __int128 v = static_cast<__int128>(st.v) + c.inc;
        if (v > c.hi || v < c.lo) {
            if (!c.cycle) return false;
            v = c.inc > 0 ? c.lo : c.hi;
        }
        st.v = static_cast<i64>(v);
        out = st.v;
        return true;
    }

    // ---- the value a column takes from a source of a given type
    static V convert(V const& v, Ty const& from, Col const& c, Codes& errs) {
        V r = v;
        if (v.null) {
            if (!c.nullable) errs.insert(error_code::not_null_constraint_violation_exception);
            r.k = c.t.k;
            return r;
        }
        r.k = c.t.k;
        if (c.t.k == K::int4 && from.k == K::int8 && (v.i < INT32_MIN || v.i > INT32_MAX)) errs.insert(error_code::value_evaluation_exception);
        if ((c.t.k == K::character || c.t.k == K::octet) && c.t.len && v.s.size() > *c.t.len) errs.insert(error_code::value_too_long_exception);
        return r;
    }
    // a source for a column: a value and its type
    Engine::Cell source(Tab const& t, std::size_t c) {
        auto const& ct = t.cols[c].t;
        Engine::Cell x{gen_cell(s, t, c), ct};
        if (s.chance(8)) { x.v.null = true; return x; }
        if (ct.k == K::int4 && s.chance(30)) {
            x.t = tree::ty(K::int8);
            x.v.k = K::int8;
            if (s.chance(10)) x.v.i = s.flip() ? INT32_MAX + static_cast<i64>(s.range(1, 5)) : INT64_MIN + static_cast<i64>(s.range(0, 5));
        } else if (ct.k == K::int8 && s.chance(30) && x.v.i >= INT32_MIN && x.v.i <= INT32_MAX) {
            x.t = tree::ty(K::int4);
            x.v.k = K::int4;
        } else if ((ct.k == K::character || ct.k == K::octet) && ct.varying && s.chance(40)) {
            if (s.chance(20)) x.v.s += std::string((ct.len ? *ct.len : 0) + s.range(1, 3), 'x');
            x.t.len.reset();
            x.t.varying = true;
        } else if (!x.v.null) {
            x.v = stored(ct, x.v);
        }
        return x;
    }
    // inserts one row into the model; false if the statement failed
    bool insert(Tab& t, std::map<std::size_t, Engine::Cell> const& given, tr::write_kind k, std::map<std::size_t, SeqState>& sq, Expect& x) {
        Row_ row(t.cols.size());
        Codes errs;
        for (std::size_t c = 0; c < t.cols.size(); ++c) {
            auto& col = t.cols[c];
            V null;
            null.k = col.t.k;
            null.null = true;
            if (auto it = given.find(c); it != given.end()) { row[c] = convert(it->second.v, it->second.t, col, errs); continue; }
            switch (col.def) {
                case Def::value: row[c] = convert(col.dv, col.t, col, errs); break;
                case Def::sequence: {
                    i64 v = 0;
                    if (!next(col, sq[c], v)) errs.insert(error_code::value_evaluation_exception);
                    row[c] = null;
                    row[c].null = false;
                    row[c].i = v;
                    break;
                }
                default: row[c] = convert(null, col.t, col, errs); break;
            }
        }
        if (!errs.empty()) { x.errors = errs; return false; }
        for (std::size_t c = 0; c < row.size(); ++c) row[c] = stored(t.cols[c].t, row[c]);
        auto key = t.key(row);
        bool found = t.rows.count(key) != 0;
        if (found && k == tr::write_kind::insert) { x.errors = {error_code::unique_constraint_violation_exception}; return false; }
        if (found && k == tr::write_kind::insert_skip) return true;
        t.rows[key] = row;
        ++(k == tr::write_kind::insert_overwrite ? x.merged : x.inserted);
        return true;
    }
    // ---- running a statement and judging it
    void judge(Tx const& tx, Tab& t, Result const& r, Expect const& x, std::map<std::size_t, SeqState> const& sq, bool& alive, std::string const& what) {
        if (!fake::st().delivered.empty()) {
            s.label("fault");
            PBT_CHECK(!r.ok(), what, " succeeded though the engine failed in ", fake::st().failed.begin()->first);
            PBT_CHECK(r.err != nullptr && r.err->code() != error_code::none, what, " gave no error information");
            fake::st().faults.clear();
            dead(tx);
            alive = false;
            for (std::size_t i = 0; i < tabs.size(); ++i) tabs[i].rows = saved[i];
            return;
        }
        fake::st().faults.clear();
        if (x.refused) {
            PBT_CHECK(!r.ok(), what, " was accepted");
            PBT_CHECK(r.err && r.err->code() == error_code::restricted_operation_exception, what, ": ", r.what());
            // found when the plan is run, the transaction may go on or not
            if (r.prepare == status::ok && !e.exec(tx, e.select_all(tabs.front().d.name)).ok()) {
                alive = false;
                for (std::size_t i = 0; i < tabs.size(); ++i) tabs[i].rows = saved[i];
            }
            return;
        }
        PBT_CHECK(r.prepare == status::ok, what, ": ", r.what());
        if (!x.errors.empty()) {
            s.label("failed statement");
            PBT_CHECK(r.rc != status::ok, what, " succeeded");
            PBT_CHECK(r.err != nullptr, what, " gave no error information");
            PBT_CHECK(x.errors.count(r.code()), what, ": ", r.what(), " in place of ", *x.errors.begin());
            PBT_EQ(r.err->status(), r.rc, what, ": status of the error");
            dead(tx);
            alive = false;
            for (std::size_t i = 0; i < tabs.size(); ++i) tabs[i].rows = saved[i];
            return;
        }
        PBT_CHECK(r.rc == status::ok, what, ": ", r.what());
        PBT_EQ(counted(r, counter_kind::inserted), x.inserted, what, ": inserted");
        PBT_EQ(counted(r, counter_kind::merged), x.merged, what, ": merged");
        PBT_EQ(counted(r, counter_kind::updated), x.updated, what, ": updated");
        PBT_EQ(counted(r, counter_kind::deleted), x.deleted, what, ": deleted");
        for (auto& [c, st] : sq) {
            auto g = seq(t, c)->get();
            PBT_CHECK((g.version_ <= 1) == st.fresh && (st.fresh || g.value_ == st.v), what, ": sequence of column ", c, " is at ", g.value_, " in place of ", st.v);
        }
    }
    static i64 counted(Result const& r, counter_kind k) { return std::max<i64>(r.count(k), 0); }
    // the transaction was aborted by an error
    void dead(Tx const& tx) {
        std::size_t n = 0;
        for (auto& t : tabs) n += t.secs.size();
        auto r = e.exec(tx, e.select_all(tabs.front().d.name));
        PBT_CHECK(!r.ok(), "a statement runs in an aborted transaction");
        PBT_CHECK(r.code() == error_code::inactive_transaction_exception, "a statement in an aborted transaction: ", r.what());
        PBT_EQ(fake::st().open_iterators, 0U, "iterators left open");
        if (s.chance(30)) {
            fake::st().faults.clear();
            PBT_CHECK(e.commit(tx) != status::ok, "commit of an aborted transaction succeeded");
        }
    }
    Tab& some() { return tabs[s.idx(tabs.size())]; }

    // ---- INSERT
    std::vector<std::size_t> columns(Tab const& t, Expect& x) {
        std::vector<std::size_t> cs;
        for (std::size_t c = 0; c < t.visible(); ++c) {
            bool has = t.cols[c].def != Def::nothing;
            if (t.cols[c].read_only ? s.chance(4) : s.chance(has ? 50 : t.cols[c].nullable ? 85 : 97)) cs.push_back(c);
        }
        if (cs.empty())
            for (std::size_t c = 0; c < t.visible() && cs.empty(); ++c) if (!t.cols[c].read_only) cs.push_back(c);
        if (cs.empty()) cs.push_back(0);
        for (std::size_t i = cs.size(); i > 1; --i) if (s.chance(30)) std::swap(cs[i - 1], cs[s.idx(i)]);
        for (auto c : cs) if (t.cols[c].read_only) x.refused = true;
        return cs;
    }
    tr::write_kind kind() { return s.pick({tr::write_kind::insert, tr::write_kind::insert, tr::write_kind::insert_skip, tr::write_kind::insert_overwrite}); }
    static char const* name(tr::write_kind k) { return k == tr::write_kind::insert ? "insert" : k == tr::write_kind::insert_skip ? "insert if not exists" : "insert or replace"; }
    bool cells(Tab& t, std::vector<std::size_t> const& cs, tr::write_kind k, std::vector<std::vector<Engine::Cell>>& rows, std::map<std::size_t, SeqState>& sq, Expect& x, std::vector<Ty> const* types = nullptr) {
        auto n = s.range(1, 3);
        bool ok = true;
        for (i64 i = 0; i < n; ++i) {
            std::vector<Engine::Cell> r;
            std::map<std::size_t, Engine::Cell> given;
            for (std::size_t j = 0; j < cs.size(); ++j) {
                auto c = source(t, cs[j]);
                if (types) {  // of the columns of VALUES
                    auto const& w = (*types)[j];
                    if (w.k == K::int4 && !c.v.null && c.t.k == K::int8) { c.t = w; c.v.k = K::int4; c.v.i = static_cast<std::int32_t>(c.v.i); }
                    if (w.k != K::int4 && w.k != K::int8) c.t = w;
                    auto f = c;
                    f.t = w;
                    f.v.k = w.k;
                    given[cs[j]] = f;
                } else given[cs[j]] = c;
                r.push_back(c);
            }
            s.note("  row ", show_cells(r));
            if (ok && !x.refused) ok = insert(t, given, k, sq, x);
            rows.push_back(std::move(r));
        }
        return ok;
    }
    static std::string show_cells(std::vector<Engine::Cell> const& r) {
        std::string o;
        for (auto& c : r) o += cat(o.empty() ? "" : ", ", c.v, " ", c.t);
        return o;
    }
    void insert_values(Tx const& tx, bool& alive) {
        auto& t = some();
        Expect x;
        auto k = kind();
        auto cs = columns(t, x);
        auto sq = sequences(t);
        std::vector<std::vector<Engine::Cell>> rows;
        s.note(name(k), " ", t.d.name, " columns ", show_list(cs));
        cells(t, cs, k, rows, sq, x);
        auto r = e.exec(tx, e.insert(t.d.name, cs, rows, k));
        judge(tx, t, r, x, sq, alive, name(k));
    }
    static std::string show_list(std::vector<std::size_t> const& l) {
        std::string o;
        for (auto c : l) o += cat(" ", c);
        return o;
    }
    // VALUES as the source of a plan, straight or through PROJECT
    void insert_plan(Tx const& tx, bool& alive) {
        auto& t = some();
        Expect x;
        auto k = kind();
        auto cs = columns(t, x);
        auto sq = sequences(t);
        std::vector<Ty> types;
        for (auto c : cs) {
            auto ty = t.cols[c].t;
            if (ty.k == K::int4 && s.chance(30)) ty.k = K::int8;
            else if (ty.k == K::int8 && s.chance(20)) ty.k = K::int4;
            else if ((ty.k == K::character || ty.k == K::octet) && ty.varying && s.chance(40)) ty.len.reset();
            types.push_back(ty);
        }
        for (std::size_t j = 0; j < cs.size(); ++j) {  // values that the columns of VALUES hold
            auto const& w = types[j];
            if ((w.k == K::character || w.k == K::octet) && w.varying && w.len) types[j].len.reset();
        }
        std::vector<std::vector<Engine::Cell>> rows;
        s.note(name(k), " ", t.d.name, " from values, columns ", show_list(cs));
        cells(t, cs, k, rows, sq, x, &types);
        auto tb = e.table(t.d.name);
        auto ix = e.index(t.d.name);
        bool split = s.flip();
        auto r = e.exec(tx, e.plan([&](Plan& p) {
            Engine::bind_columns(p.info, *tb);
            auto& q = p.proc();
            std::vector<variable> vs;
            for (auto& ty : types) vs.push_back(p.var(ty));
            std::vector<tr::values::row> rs;
            for (auto& row : rows) {
                std::vector<Expr> es;
                for (std::size_t j = 0; j < row.size(); ++j) es.push_back(p.lit(row[j].v, row[j].t));
                rs.emplace_back(std::move(es));
            }
            std::vector<tr::write::key> ks;
            std::vector<tr::write::column> ws;
            for (std::size_t j = 0; j < cs.size(); ++j) {
                if (split && t.is_key(cs[j])) ks.emplace_back(vs[j], Engine::col(*tb, cs[j]));
                else ws.emplace_back(vs[j], Engine::col(*tb, cs[j]));
            }
            auto& v = q.op<tr::values>(vs, std::move(rs));
            auto& w = q.op<tr::write>(k, Engine::rel(ix), ks, ws);
            v.output() >> w.input();
        }));
        judge(tx, t, r, x, sq, alive, cat(name(k), " from values"));
    }
    // INSERT ... SELECT from the other table
    void insert_select(Tx const& tx, bool& alive) {
        auto& t = some();
        auto& f = &t == &tabs.front() ? tabs.back() : tabs.front();
        if (&t == &f) return;
        Expect x;
        auto k = kind();
        auto sq = sequences(t);
        s.note(name(k), " ", t.d.name, " select");
        auto w = where(f);
        std::vector<std::pair<std::size_t, std::size_t>> map;
        for (std::size_t c = 0; c < t.visible(); ++c) {
            std::vector<std::size_t> like;
            for (std::size_t d = 0; d < f.cols.size(); ++d)
                if (cat(f.cols[d].t) == cat(t.cols[c].t) || (tree::is_int(f.cols[d].t.k) && tree::is_int(t.cols[c].t.k))) like.push_back(d);
            if (like.empty() || t.cols[c].read_only || (t.cols[c].def != Def::nothing && s.flip())) continue;
            map.emplace_back(c, s.pick(like));
            s.note("  column ", c, " from ", map.back().second);
        }
        if (map.empty()) return;
        for (auto& fk : targets(f, w)) {
            auto const& row = f.rows.at(fk);
            if (!applies(w, row, x)) {
                if (!x.errors.empty()) break;
                continue;
            }
            std::map<std::size_t, Engine::Cell> given;
            for (auto& [c, d] : map) given[c] = {row[d], f.cols[d].t};
            if (!insert(t, given, k, sq, x)) break;
        }
        auto r = e.exec(tx, e.plan([&](Plan& p) {
            auto& q = p.proc();
            std::vector<variable> vs;
            auto tb = e.table(t.d.name);
            Engine::bind_columns(p.info, *tb);
            read(p, q, f, w, vs, [&](auto& out) {
                std::vector<tr::write::column> cs;
                for (auto& [c, d] : map) cs.emplace_back(vs[d], Engine::col(*tb, c));
                auto& o = q.op<tr::write>(k, Engine::rel(e.index(t.d.name)), std::vector<tr::write::key>{}, cs);
                out >> o.input();
            });
        }));
        judge(tx, t, r, x, sq, alive, cat(name(k), " select"));
    }
    // ---- UPDATE and DELETE
    struct Where {
        int how = 0;  // 0 all, 1 key, 2 index
        std::size_t index = 0;
        Row_ key{};
        bool filter = false;
        std::size_t col = 0;
        int cmp = 0;  // 0 =, 1 <, 2 >, 3 <>
        V v{};
        bool trap = false;  // also 7 / column <= 7, which fails where the column is 0
        std::size_t divisor = 0;
    };
    Where where(Tab const& t) {
        Where w;
        w.how = static_cast<int>(s.idx(t.secs.empty() ? 2 : 3));
        if (w.how == 2) w.index = s.idx(t.secs.size());
        if (w.how == 1) {
            if (!t.rows.empty() && s.chance(80)) {
                auto it = t.rows.begin();
                std::advance(it, s.idx(t.rows.size()));
                w.key = it->second;
            } else {
                for (std::size_t c = 0; c < t.cols.size(); ++c) w.key.push_back(stored(t.cols[c].t, gen_value(s, t.cols[c].t, 85)));
            }
        }
        w.filter = s.chance(50);
        if (w.filter) {
            w.col = s.idx(t.cols.size());
            w.cmp = static_cast<int>(s.range(0, 3));
            w.v = gen_cell(s, t, w.col);
            if (!w.v.null) w.v = stored(t.cols[w.col].t, w.v);
        }
        if (s.chance(20)) {
            std::vector<std::size_t> ints;
            for (std::size_t c = 0; c < t.cols.size(); ++c) if (tree::is_int(t.cols[c].t.k)) ints.push_back(c);
            if (!ints.empty()) {
                w.trap = true;
                w.divisor = s.pick(ints);
                s.note("  divides by column ", w.divisor);
            }
        }
        s.note("  where ", w.how == 0 ? "scan" : w.how == 1 ? cat("key of ", Tab::show_row(w.key)) : cat("scan of index ", w.index), w.filter ? cat(" filter column ", w.col, " op ", w.cmp, " ", w.v) : std::string{});
        return w;
    }
    static bool match(Where const& w, Row_ const& r) {
        if (!w.filter) return true;
        auto& x = r[w.col];
        if (x.null || w.v.null) return false;
        bool nan = (x.k == K::float4 && (std::isnan(x.f) || std::isnan(w.v.f))) || (x.k == K::float8 && (std::isnan(x.d) || std::isnan(w.v.d)));
        (void)nan;
        auto c = cmp3(x, w.v);
        return w.cmp == 0 ? c == 0 : w.cmp == 1 ? c < 0 : w.cmp == 2 ? c > 0 : c != 0;
    }
    // 0: not for the row, 1: for the row, 2: fails
    static int applies(Where const& w, Row_ const& r) {
        if (!match(w, r)) return 0;
        if (!w.trap) return 1;
        return r[w.divisor].null ? 0 : r[w.divisor].i == 0 ? 2 : 1;
    }
    static bool applies(Where const& w, Row_ const& r, Expect& x) {
        auto a = applies(w, r);
        if (a == 2) x.errors = {error_code::value_evaluation_exception};
        return a == 1;
    }
    // the rows in the order the engine meets them
    std::vector<std::string> targets(Tab const& t, Where const& w) {
        std::vector<std::pair<std::string, std::string>> ks;
        for (auto& [k, r] : t.rows) {
            if (w.how == 1 && k != t.key(w.key)) continue;
            ks.emplace_back(w.how == 2 ? t.secondary(t.secs[w.index], r) : k, k);
        }
        std::sort(ks.begin(), ks.end());
        std::vector<std::string> o;
        for (auto& [a, b] : ks) o.push_back(b);
        return o;
    }
    // the operators that read the rows; gives the variables of the columns
    template <class F>
    void read(Plan& p, Plan::Proc& q, Tab const& t, Where const& w, std::vector<variable>& vs, F&& then) {
        auto tb = e.table(t.d.name);
        auto ix = e.index(w.how == 2 ? t.secs[w.index].name : t.d.name);
        Engine::bind_columns(p.info, *tb);
        for (auto& c : t.cols) vs.push_back(p.var(c.t));
        auto with = [&](auto& o) {
            auto rest = [&](auto& out) {
                if (!w.trap) { then(out); return; }
                auto i4 = tree::ty(K::int4);
                V seven;
                seven.k = K::int4;
                seven.i = 7;
                auto div = std::make_shared<tree::sc::binary>(tree::sc::binary_operator::divide, p.lit(seven, i4), p.ref(vs[w.divisor], t.cols[w.divisor].t));
                p.info.bind(*div, tk(t.cols[w.divisor].t));
                auto cmp = std::make_shared<tree::sc::compare>(tree::sc::comparison_operator::less_equal, div, p.lit(seven, i4));
                p.info.bind(*cmp, tk(tree::ty(K::boolean)));
                auto& f = q.op<tr::filter>(cmp);
                out >> f.input();
                then(f.output());
            };
            if (!w.filter) { rest(o.output()); return; }
            auto cmp = std::make_shared<tree::sc::compare>(std::array{tree::sc::comparison_operator::equal, tree::sc::comparison_operator::less, tree::sc::comparison_operator::greater, tree::sc::comparison_operator::not_equal}[static_cast<std::size_t>(w.cmp)],
                p.ref(vs[w.col], t.cols[w.col].t), p.lit(w.v, t.cols[w.col].t));
            p.info.bind(*cmp, tk(tree::ty(K::boolean)));
            auto& f = q.op<tr::filter>(cmp);
            o.output() >> f.input();
            rest(f.output());
        };
        if (w.how == 1) {
            std::vector<tr::find::column> cs;
            for (std::size_t c = 0; c < t.cols.size(); ++c) cs.emplace_back(Engine::col(*tb, c), vs[c]);
            std::vector<tr::find::key> ks;
            for (auto& k : t.pk) ks.emplace_back(Engine::col(*tb, k.col), p.lit(w.key[k.col], t.cols[k.col].t));
            with(q.op<tr::find>(Engine::rel(ix), cs, std::move(ks)));
        } else {
            std::vector<tr::scan::column> cs;
            for (std::size_t c = 0; c < t.cols.size(); ++c) cs.emplace_back(Engine::col(*tb, c), vs[c]);
            with(q.op<tr::scan>(Engine::rel(ix), cs, tr::scan::endpoint{}, tr::scan::endpoint{}));
        }
    }
    void erase(Tx const& tx, bool& alive) {
        auto& t = some();
        s.note("delete ", t.d.name);
        auto w = where(t);
        Expect x;
        auto sq = sequences(t);
        for (auto& k : targets(t, w)) {
            if (applies(w, t.rows.at(k), x)) {
                t.rows.erase(k);
                ++x.deleted;
            }
            if (!x.errors.empty()) break;
        }
        auto r = e.exec(tx, e.plan([&](Plan& p) {
            auto& q = p.proc();
            std::vector<variable> vs;
            read(p, q, t, w, vs, [&](auto& out) {
                auto tb = e.table(t.d.name);
                std::vector<tr::write::key> ks;
                for (auto& k : t.pk) ks.emplace_back(vs[k.col], Engine::col(*tb, k.col));
                auto& o = q.op<tr::write>(tr::write_kind::delete_, Engine::rel(e.index(t.d.name)), ks, std::vector<tr::write::column>{});
                out >> o.input();
            });
        }));
        judge(tx, t, r, x, sq, alive, "delete");
    }
    void update(Tx const& tx, bool& alive) {
        auto& t = some();
        s.note("update ", t.d.name);
        auto w = where(t);
        Expect x;
        auto sq = sequences(t);
        struct Set { std::size_t col; bool from; std::size_t src; Engine::Cell c; };
        std::vector<Set> sets;
        for (std::size_t c = 0; c < t.visible(); ++c) {
            if (!s.chance(t.is_key(c) ? 20 : 45) || (t.cols[c].read_only && !s.chance(10))) continue;
            Set u{c, false, 0, {}};
            std::vector<std::size_t> like;
            for (std::size_t d = 0; d < t.cols.size(); ++d) if (d != c && t.cols[d].t.k == t.cols[c].t.k && cat(t.cols[d].t) == cat(t.cols[c].t)) like.push_back(d);
            if (!like.empty() && s.chance(50)) { u.from = true; u.src = s.pick(like); }
            else u.c = source(t, c);
            s.note("  set column ", c, " = ", u.from ? cat("column ", u.src) : cat(u.c.v, " ", u.c.t));
            sets.push_back(u);
            if (t.cols[c].read_only) x.refused = true;
        }
        if (sets.empty()) return;
        bool key = std::any_of(sets.begin(), sets.end(), [&](auto& u) { return t.is_key(u.col); });
        if (!x.refused)
            for (auto& k : targets(t, w)) {
                auto it = t.rows.find(k);
                if (it == t.rows.end()) continue;
                if (!applies(w, it->second, x)) {
                    if (!x.errors.empty()) break;
                    continue;
                }
                auto row = it->second;
                Codes errs;
                for (auto& u : sets) row[u.col] = u.from ? convert(it->second[u.src], t.cols[u.src].t, t.cols[u.col], errs) : convert(u.c.v, u.c.t, t.cols[u.col], errs);
                if (!errs.empty()) { x.errors = errs; break; }
                for (std::size_t c = 0; c < row.size(); ++c) row[c] = stored(t.cols[c].t, row[c]);
                t.rows.erase(it);
                auto nk = t.key(row);
                if (t.rows.count(nk)) { x.errors = {error_code::unique_constraint_violation_exception}; break; }
                t.rows[nk] = row;
                ++x.updated;
            }
        if (key) s.label("key updated");
        bool both = s.flip();
        auto r = e.exec(tx, e.plan([&](Plan& p) {
            auto& q = p.proc();
            std::vector<variable> vs;
            read(p, q, t, w, vs, [&](auto& out) {
                auto tb = e.table(t.d.name);
                std::vector<tr::project::column> ps;
                std::vector<tr::write::key> ks;
                std::vector<tr::write::column> cs;
                for (auto& k : t.pk) ks.emplace_back(vs[k.col], Engine::col(*tb, k.col));
                for (auto& u : sets) {
                    if (u.from && both) { cs.emplace_back(vs[u.src], Engine::col(*tb, u.col)); continue; }
                    auto const& ty = u.from ? t.cols[u.src].t : u.c.t;
                    auto v = p.var(ty);
                    ps.emplace_back(v, u.from ? p.ref(vs[u.src], ty) : p.lit(u.c.v, ty));
                    cs.emplace_back(v, Engine::col(*tb, u.col));
                }
                auto& o = q.op<tr::write>(tr::write_kind::update, Engine::rel(e.index(t.d.name)), ks, cs);
                if (ps.empty()) { out >> o.input(); return; }
                auto& pr = q.op<tr::project>(std::move(ps));
                out >> pr.input();
                pr.output() >> o.input();
            });
        }));
        judge(tx, t, r, x, sq, alive, "update");
    }
    void snapshot() {
        saved.clear();
        for (auto& t : tabs) saved.push_back(t.rows);
    }
    void check(std::string const& when) {
        for (auto& t : tabs) t.check(e, when);
        PBT_EQ(fake::st().open_iterators, 0U, "iterators left open");
        PBT_CHECK(!fake::st().misuse, fake::st().misuse_what);
    }
};

void arm(Src& s) {
    static char const* const ops[] = {"content_put", "content_put", "content_delete", "content_get", "content_scan", "iterator_next", "iterator_get_key", "iterator_get_value", "sequence_put"};
    fake::Fault f{ops[s.idx(9)], static_cast<long>(s.range(0, 6)), s.pick({fake::StatusCode::ERR_ABORTED_RETRYABLE, fake::StatusCode::ERR_IO_ERROR, fake::StatusCode::ERR_CONFLICT_ON_WRITE_PRESERVE, fake::StatusCode::ERR_UNKNOWN})};
    s.note("fault ", f.op, " after ", f.countdown);
    fake::st().faults.push_back(f);
}
void history(Src& s, bool faults) {
    World w{s};
    auto nt = s.range(1, 2);
    for (i64 i = 0; i < nt; ++i) w.add("T" + std::to_string(i));
    std::size_t most = 0, changed = 0;
    auto ntx = s.range(1, 4);
    for (i64 i = 0; i < ntx; ++i) {
        w.snapshot();
        auto tx = w.e.begin();
        bool alive = true;
        auto n = s.range(1, 5);
        s.note("begin");
        for (i64 j = 0; j < n && alive; ++j) {
            fake::st().faults.clear();
            fake::st().delivered.clear();
            fake::st().failed.clear();
            if (faults && s.chance(30)) arm(s);
            switch (s.idx(7)) {
                case 6: w.insert_select(tx, alive); break;
                case 0: case 1: w.insert_values(tx, alive); break;
                case 2: w.insert_plan(tx, alive); break;
                case 3: case 4: w.update(tx, alive); ++changed; break;
                default: w.erase(tx, alive); ++changed; break;
            }
            fake::st().faults.clear();
            w.check(alive ? "after the statement" : "after the failed statement");
            for (auto& t : w.tabs) most = std::max(most, t.rows.size());
        }
        if (alive) {
            if (s.chance(75)) {
                s.note("commit");
                fake::st().delivered.clear();
                if (faults && s.chance(20)) fake::st().faults.push_back({"transaction_commit", 0, fake::StatusCode::ERR_ABORTED_RETRYABLE});
                auto rc = w.e.commit(tx);
                PBT_EQ(rc == status::ok, fake::st().delivered.empty(), "commit gave ", rc);
                if (rc != status::ok) for (std::size_t k = 0; k < w.tabs.size(); ++k) w.tabs[k].rows = w.saved[k];
            } else {
                s.note("abort");
                w.e.abort(tx);
                for (std::size_t k = 0; k < w.tabs.size(); ++k) w.tabs[k].rows = w.saved[k];
            }
        }
        w.check("after the transaction");
    }
    if (most >= 3 && changed > 0) s.nontrivial();
    for (auto& t : w.tabs) {
        auto r = w.e.must(w.e.select_all(t.d.name));
        PBT_EQ(r.rows.size(), t.rows.size(), "rows read back");
        PBT_EQ(r.names.size(), t.visible(), "columns read back");
        for (std::size_t c = 0; c < t.visible(); ++c) PBT_EQ(r.names[c], t.cols[c].name, "name of a column read back");
    }
}
}  // namespace
