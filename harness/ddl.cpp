// P28: definitions, privileges, locks between statements, lazy deletion and recovery, against a model of the catalogue.
#include "table.inc"
#include <jogasaki/executor/describe.h>
#include <jogasaki/storage/maintenance_storage.h>
#include <tateyama/api/server/request.h>
using namespace eng;
namespace {
using Codes = std::set<error_code>;
namespace sd = takatori::statement::details;
using Tpa = sd::table_privilege_action;
using Who = takatori::statement::authorization_user_kind;
// 0 control, 1 select, 2 insert, 3 update, 4 delete
constexpr auth::action_kind act(int a) {
    return a == 0 ? auth::action_kind::control : a == 1 ? auth::action_kind::select : a == 2 ? auth::action_kind::insert : a == 3 ? auth::action_kind::update : auth::action_kind::delete_;
}
inline Tpa priv(int a) {
    using k = Tpa::action_kind_type;
    return Tpa{a == 0 ? k::control : a == 1 ? k::select : a == 2 ? k::insert : a == 3 ? k::update : k::delete_};
}
struct Acts {
    std::set<int> s{};
    void add(int a) {
        if (a == 0) s = {0};
        else if (!s.count(0)) s.insert(a);
    }
    void drop(int a) {
        if (a == 0) s.clear();
        else s.erase(a);
    }
    [[nodiscard]] bool has(int a) const { return s.count(0) || s.count(a); }
    friend bool operator==(Acts const& a, Acts const& b) { return a.s == b.s; }
};
inline std::string show(Acts const& a) {
    std::string o;
    for (auto x : a.s) o += "CSIUD"[x];
    return o;
}
inline Acts of(auth::action_set const& x) {
    Acts r;
    for (int a = 0; a < 5; ++a) if (x.has_action(act(a))) r.s.insert(a);
    return r;
}
struct User {
    bool internal = false, admin = false;
    std::optional<std::string> name{};
    [[nodiscard]] bool standard() const { return !internal && !admin; }
    [[nodiscard]] request_info req() const {
        if (internal) return {};
        auto r = std::make_shared<tateyama::api::server::request>();
        r->session_.name_ = name;
        r->session_.type_ = admin ? tateyama::api::server::user_type::administrator : tateyama::api::server::user_type::standard;
        return request_info{1, r, nullptr};
    }
    [[nodiscard]] std::string show() const { return internal ? "the engine" : cat(admin ? "administrator " : "user ", name.value_or("without name")); }
};
struct SeqState { bool fresh = true; i64 v = 0; };
struct T {
    Tab t{};
    int gen = 0;
    std::map<std::string, Acts> auth{};
    Acts pub{};
    std::map<std::size_t, SeqState> seq{}, durable{};
    int version = 0;  // of its set of indices
    [[nodiscard]] bool allows(User const& u, int a) const {
        if (pub.has(a)) return true;
        if (!u.name) return false;
        auto it = auth.find(*u.name);
        return it != auth.end() && it->second.has(a);
    }
    [[nodiscard]] bool sequences() const {
        return std::any_of(t.cols.begin(), t.cols.end(), [](auto& c) { return c.def == Def::sequence; });
    }
};
struct Undo_ { int gen; std::string key; std::optional<Row_> old; };
struct Open {
    Tx tx{};
    bool alive = true, own = false;  // own: begun for a single statement
    std::set<int> locks{}, refs{};
    std::set<std::pair<int, std::size_t>> used{};  // sequences: (table, column)
    std::vector<Undo_> undo{};
};
struct Reserved { int gen; std::string name; bool free = false; };
struct Prepared {
    std::unique_ptr<api::executable_statement> st{};
    std::string table{};
    int gen = 0, version = 0, kind = 0;
    std::vector<int> acts{};
    Row_ row{};
};

inline bool next(Col const& c, SeqState& st, i64& out) {
    if (st.fresh) { st = {false, c.init}; out = st.v; return true; }
    __int128 v = static_cast<__int128>(st.v) + c.inc;
    if (v > c.hi || v < c.lo) {
        if (!c.cycle) return false;
        v = c.inc > 0 ? c.lo : c.hi;
    }
    st.v = static_cast<i64>(v);
    out = st.v;
    return true;
}

struct World {
    Src& s;
    bool faults;
    Engine e{};
    std::map<std::string, T> tabs{};
    std::map<std::string, std::shared_ptr<ys::table const>> known_tables{};
    std::map<std::string, std::shared_ptr<ys::index const>> known_indices{};
    std::deque<Open> open{};
    std::vector<Reserved> reserved{};
    std::deque<Prepared> prepared{};
    std::size_t base_storages, base_entries;
    int gens = 0, names = 0;
    std::size_t ddl = 0, denied = 0, blocked = 0, restarts = 0, stored_rows = 0;

    World(Src& src, bool f) : s(src), faults(f), base_storages(fake::st().tables.size()), base_entries(global::storage_manager()->size()) {}

    User user() {
        auto k = s.idx(20);
        if (k < 7) return {true, false, {}};
        if (k < 11) return {false, true, "root"};
        if (k < 12) return {false, true, {}};
        if (k < 15) return {false, false, "alice"};
        if (k < 18) return {false, false, "bob"};
        return {false, false, {}};
    }
    T* of_gen(int g) {
        for (auto& [n, t] : tabs) if (t.gen == g) return &t;
        return nullptr;
    }
    [[nodiscard]] bool locked(int gen, Open const& me) const {
        return std::any_of(open.begin(), open.end(), [&](auto& o) { return &o != &me && o.locks.count(gen); });
    }
    // ---- transactions
    Open& some_tx(bool allow_open = true) {
        if (allow_open && !open.empty() && s.chance(50)) {
            auto& o = open[s.idx(open.size())];
            s.note("in open transaction ", o.tx->surrogate_id());
            return o;
        }
        open.emplace_back();
        auto& o = open.back();
        o.own = true;
        o.tx = e.begin();
        return o;
    }
    void erase(Open& o) {
        for (auto it = open.begin(); it != open.end(); ++it) if (&*it == &o) { open.erase(it); return; }
    }
    void rollback(Open& o) {
        for (auto it = o.undo.rbegin(); it != o.undo.rend(); ++it)
            if (auto* t = of_gen(it->gen)) {
                if (it->old) t->t.rows[it->key] = *it->old;
                else t->t.rows.erase(it->key);
            }
    }
    void dead(Open& o, std::string const& what) {
        auto rc = e.commit(o.tx);
        PBT_CHECK(rc != status::ok, what, " failed and its transaction could be committed");
        rollback(o);
        erase(o);
    }
    void finish(Open& o, bool commit) {
        if (commit) {
            auto rc = e.commit(o.tx);
            PBT_CHECK(rc == status::ok, "commit gave ", rc);
            for (auto& [g, c] : o.used) if (auto* t = of_gen(g)) t->durable[c] = t->seq[c];
        } else {
            e.abort(o.tx);
            rollback(o);
        }
        erase(o);
    }
    void settle(Open& o) { if (o.own) finish(o, true); }
    // what a statement gave, against the errors it may give; true when it took effect
    bool judge(Open& o, Result const& r, Codes const& errs, std::string const& what) {
        if (!fake::st().delivered.empty()) {
            s.label("fault");
            fake::st().faults.clear();
            PBT_CHECK(!r.ok(), what, " succeeded though the engine failed in ", fake::st().failed.begin()->first);
            PBT_CHECK(r.err != nullptr && r.err->code() != error_code::none, what, " gave no error information");
            fake::st().delivered.clear();
            dead(o, what);
            return false;
        }
        fake::st().faults.clear();
        if (errs.empty()) {
            PBT_CHECK(r.ok(), what, ": ", r.what());
            return true;
        }
        if (errs.count(error_code::permission_error)) ++denied;
        PBT_CHECK(!r.ok(), what, " succeeded in place of error ", *errs.begin());
        PBT_CHECK(r.err != nullptr, what, " gave no error information");
        PBT_CHECK(errs.count(r.code()), what, ": ", r.what(), " in place of ", *errs.begin());
        PBT_EQ(r.err->status(), r.rc, what, ": status of the error");
        dead(o, what);
        return false;
    }
    void arm(std::initializer_list<char const*> ops) {
        fake::st().delivered.clear();
        fake::st().failed.clear();
        if (!faults || !s.chance(40)) return;
        std::vector<char const*> v{ops};
        fake::Fault f{v[s.idx(v.size())], static_cast<long>(s.range(0, 3)), s.pick({fake::StatusCode::ERR_ABORTED_RETRYABLE, fake::StatusCode::ERR_IO_ERROR, fake::StatusCode::ERR_UNKNOWN})};
        s.note("fault ", f.op, " after ", f.countdown);
        fake::st().faults.push_back(f);
    }
    void lock_error(T const& t, Open const& o, Codes& errs) {
        if (locked(t.gen, o)) { errs.insert(error_code::sql_execution_exception); ++blocked; }
    }
    void control_error(T const& t, User const& u, Codes& errs) {
        if (u.standard() && (!u.name || !t.allows(u, 0))) errs.insert(error_code::permission_error);
    }
    std::string any_name() { return "T" + std::to_string(s.idx(3)); }
    T* some_table() {
        if (tabs.empty()) return nullptr;
        auto it = tabs.begin();
        std::advance(it, s.idx(tabs.size()));
        return &it->second;
    }
    void know(std::string const& name) {
        known_tables[name] = e.table(name);
        for (auto& x : tabs.at(name).t.secs) known_indices[x.name] = e.index(x.name);
    }

    // ---- definitions
    void create_table() {
        auto u = user();
        auto name = any_name();
        auto t = gen_table(s, name);
        t.secs.clear();
        bool seqs = t.d.keys.empty() || std::any_of(t.d.cols.begin(), t.d.cols.end(), [](auto& c) { return c.def == Def::sequence; });
        auto& o = some_tx(!seqs);
        bool own = o.own;
        Codes errs;
        if (tabs.count(name)) errs.insert(error_code::target_already_exists_exception);
        if (u.standard()) errs.insert(error_code::permission_error);
        s.note(u.show(), " creates ", t.describe());
        arm({"storage_create", "content_put", "content_get", "content_scan", "iterator_next", "sequence_create", "sequence_put"});
        auto r = e.exec(o.tx, Engine::create_table(t.d), u.req());
        bool fault = !fake::st().delivered.empty();
        if (!judge(o, r, errs, "CREATE TABLE")) {
            if (fault) absent(name);
            return;
        }
        ++ddl;
        auto& n = tabs[name];
        n = T{};
        n.t = t;
        n.gen = ++gens;
        n.t.bound(e);
        for (std::size_t c = 0; c < n.t.cols.size(); ++c) if (n.t.cols[c].def == Def::sequence) n.seq[c] = n.durable[c] = {};
        if (!u.internal && u.name) n.auth[*u.name].add(0);
        o.locks.insert(n.gen);
        o.refs.insert(n.gen);
        know(name);
        (void)own;
        settle(o);
    }
    // a table that could not be created
    void absent(std::string const& name) {
        PBT_CHECK(!e.table(name), "a table is left by a failed CREATE TABLE");
        PBT_CHECK(!global::storage_manager()->find_by_name(name), "the name of a table that could not be created stays taken");
    }
    void drop_table() {
        auto u = user();
        auto name = any_name();
        auto k = known_tables.find(name);
        if (k == known_tables.end()) return;
        auto it = tabs.find(name);
        auto& o = some_tx(it == tabs.end() || !it->second.sequences());
        Codes errs;
        s.note(u.show(), " drops ", name);
        if (it == tabs.end()) errs.insert(error_code::target_not_found_exception);
        else { lock_error(it->second, o, errs); control_error(it->second, u, errs); }
        if (it != tabs.end() && it->second.sequences()) arm({"content_get", "content_delete", "sequence_delete"});
        auto t = k->second;
        auto r = e.exec(o.tx, Engine::stmt([t](yugawara::compiler_options&) { return Engine::done(std::make_unique<ts::drop_table>(yugawara::binding::factory{}.storage(t))); }), u.req());
        bool fault = !fake::st().delivered.empty();
        if (!judge(o, r, errs, "DROP TABLE")) {
            if (fault) {  // it may be tried again
                auto& o2 = some_tx(false);
                auto r2 = e.exec(o2.tx, Engine::stmt([t](yugawara::compiler_options&) { return Engine::done(std::make_unique<ts::drop_table>(yugawara::binding::factory{}.storage(t))); }));
                PBT_CHECK(r2.ok(), "DROP TABLE after a failed one: ", r2.what());
                dropped(o2, it);
                settle(o2);
            }
            return;
        }
        ++ddl;
        dropped(o, it);
        settle(o);
    }
    void dropped(Open& o, std::map<std::string, T>::iterator it) {
        auto& t = it->second;
        reserved.push_back({t.gen, t.t.d.name});
        for (auto& x : t.t.secs) reserved.push_back({t.gen, x.name});
        o.locks.insert(t.gen);
        o.refs.insert(t.gen);
        tabs.erase(it);
    }
    void truncate() {
        auto u = user();
        auto name = any_name();
        auto k = known_tables.find(name);
        if (k == known_tables.end()) return;
        auto it = tabs.find(name);
        bool restart = s.flip();
        auto& o = some_tx(!restart || it == tabs.end() || !it->second.sequences());
        Codes errs;
        s.note(u.show(), " truncates ", name, restart ? " restart identity" : "");
        if (it == tabs.end()) errs.insert(error_code::target_not_found_exception);
        else { lock_error(it->second, o, errs); control_error(it->second, u, errs); }
        auto t = k->second;
        auto r = e.exec(o.tx, Engine::stmt([t, restart](yugawara::compiler_options&) {
            ts::truncate_table_option_kind_set op{};
            if (restart) op.insert(ts::truncate_table_option_kind::restart_identity);
            return Engine::done(std::make_unique<ts::truncate_table>(yugawara::binding::factory{}.storage(t), op));
        }), u.req());
        if (!judge(o, r, errs, "TRUNCATE TABLE")) return;
        ++ddl;
        auto& n = it->second;
        reserved.push_back({n.gen, name});
        for (auto& x : n.t.secs) reserved.push_back({n.gen, x.name});
        o.locks.insert(n.gen);
        o.refs.insert(n.gen);
        for (auto& x : open) for (std::size_t c = 0; c < n.t.cols.size(); ++c)
            if (x.used.count({n.gen, c})) x.used.insert({gens + 1, c});  // their values are of the same sequences
        n.gen = ++gens;
        n.t.rows.clear();
        o.locks.insert(n.gen);
        o.refs.insert(n.gen);
        if (restart) for (auto& [c, q] : n.seq) q = n.durable[c] = {};
        n.t.bound(e);
        know(name);
        settle(o);
    }
    void create_index() {
        auto* t = some_table();
        if (!t) return;
        auto u = user();
        auto& n = t->t.d;
        IndexDef x{n.name + "_I" + std::to_string(s.idx(3)), {}};
        auto w = static_cast<std::size_t>(s.range(1, 2));
        auto from = s.idx(n.cols.size());
        for (std::size_t j = 0; j < n.cols.size() && x.keys.size() < w; ++j) {
            auto c = (from + j) % n.cols.size();
            auto& ct = n.cols[c].t;
            if ((ct.k == K::octet && ct.varying) || (ct.k == K::character && !ct.len)) continue;
            x.keys.push_back({c, !s.chance(30)});
        }
        if (x.keys.empty()) return;
        // rows an unfinished transaction has removed: gone for the stand-in engine, which keeps one version of a row
        for (auto& q : open) for (auto& z : q.undo) if (z.gen == t->gen) return;
        auto& o = some_tx();
        Codes errs;
        s.note(u.show(), " creates index ", x.name);
        if (e.index(x.name)) errs.insert(error_code::target_already_exists_exception);
        if (!t->t.rows.empty()) errs.insert(error_code::unsupported_runtime_feature_exception);
        lock_error(*t, o, errs);
        control_error(*t, u, errs);
        arm({"storage_create", "content_scan", "iterator_next"});
        auto st = e.create_index(n.name, x);
        auto r = e.exec(o.tx, st, u.req());
        bool fault = !fake::st().delivered.empty();
        if (!judge(o, r, errs, "CREATE INDEX")) {
            if (fault && !tabs_have(x.name)) {
                PBT_CHECK(!e.index(x.name), "an index is left by a failed CREATE INDEX");
                PBT_CHECK(!global::storage_manager()->find_by_name(x.name), "the name of an index that could not be created stays taken");
            }
            return;
        }
        ++ddl;
        t->t.secs.push_back(x);
        ++t->version;
        o.locks.insert(t->gen);
        o.refs.insert(t->gen);
        know(n.name);
        settle(o);
    }
    bool tabs_have(std::string const& index) {
        for (auto& [n, t] : tabs) for (auto& x : t.t.secs) if (x.name == index) return true;
        return false;
    }
    void drop_index() {
        auto u = user();
        std::string name;
        std::shared_ptr<ys::index const> i;
        auto* t = some_table();
        bool primary = t && s.chance(10);
        if (primary) { name = t->t.d.name; i = e.index(name); }
        else {
            if (known_indices.empty()) return;
            auto it = known_indices.begin();
            std::advance(it, s.idx(known_indices.size()));
            name = it->first;
            i = e.index(name) ? e.index(name) : it->second;
            t = nullptr;
            for (auto& [n, x] : tabs) for (auto& y : x.t.secs) if (y.name == name) t = &x;
        }
        auto& o = some_tx();
        Codes errs;
        s.note(u.show(), " drops index ", name);
        if (primary || !t) errs.insert(error_code::target_not_found_exception);
        else { lock_error(*t, o, errs); control_error(*t, u, errs); }
        auto r = e.exec(o.tx, Engine::stmt([i](yugawara::compiler_options&) { return Engine::done(std::make_unique<ts::drop_index>(yugawara::binding::factory{}.storage(i))); }), u.req());
        if (!judge(o, r, errs, "DROP INDEX")) return;
        ++ddl;
        reserved.push_back({t->gen, name});
        t->t.secs.erase(std::find_if(t->t.secs.begin(), t->t.secs.end(), [&](auto& x) { return x.name == name; }));
        ++t->version;
        o.locks.insert(t->gen);
        o.refs.insert(t->gen);
        settle(o);
    }
    // ---- privileges
    struct Entry { Who who; std::string name; std::vector<int> acts; };
    struct Element { std::string table; std::vector<int> pub; std::vector<Entry> es; };
    std::vector<int> some_acts(std::size_t max) {
        std::vector<int> v;
        auto n = s.range(0, static_cast<i64>(max));
        for (i64 i = 0; i < n; ++i) v.push_back(s.chance(20) ? 0 : static_cast<int>(s.range(1, 4)));
        return v;
    }
    void privileges(bool grant) {
        auto u = user();
        std::vector<Element> els;
        auto n = s.chance(25) ? 2 : 1;
        for (int i = 0; i < n; ++i) {
            auto* t = some_table();
            Element el;
            el.table = t && !s.chance(5) ? t->t.d.name : any_name();
            if (!known_tables.count(el.table)) continue;
            if (s.chance(30)) el.pub = some_acts(2);
            auto m = s.range(0, 2);
            for (i64 j = 0; j < m; ++j) {
                Entry en{Who::specified, s.pick({std::string{"alice"}, std::string{"bob"}, std::string{"root"}}), some_acts(3)};
                if (en.acts.empty()) en.acts.push_back(static_cast<int>(s.range(0, 4)));
                if (s.chance(15)) { en.who = Who::current_user; en.name.clear(); }
                else if (!grant && s.chance(25)) {
                    en.who = Who::all_users;
                    en.name.clear();
                    if (!s.chance(20)) en.acts = {0};
                }
                el.es.push_back(std::move(en));
            }
            els.push_back(std::move(el));
        }
        if (els.empty()) return;
        auto& o = some_tx();
        Codes errs;
        for (auto& el : els) {
            s.note(u.show(), grant ? " grants on " : " revokes on ", el.table, " public ", acts(el.pub));
            for (auto& en : el.es) s.note("  ", en.who == Who::specified ? en.name : en.who == Who::current_user ? std::string{"current_user"} : std::string{"*"}, " ", acts(en.acts));
            auto it = tabs.find(el.table);
            if (it == tabs.end()) { errs.insert(error_code::target_not_found_exception); continue; }
            for (auto& en : el.es) {
                bool named = !u.internal && u.name;
                if (en.who != Who::specified && !named) errs.insert(error_code::value_evaluation_exception);
                if (en.who == Who::all_users && std::any_of(en.acts.begin(), en.acts.end(), [](int a) { return a != 0; })) errs.insert(error_code::unsupported_runtime_feature_exception);
            }
            lock_error(it->second, o, errs);
            control_error(it->second, u, errs);
        }
        auto r = e.exec(o.tx, Engine::stmt([&](yugawara::compiler_options&) {
            std::vector<sd::table_privilege_element> v;
            for (auto& el : els) {
                std::vector<Tpa> d;
                for (auto a : el.pub) d.push_back(priv(a));
                std::vector<sd::table_authorization_entry> ae;
                for (auto& en : el.es) {
                    std::vector<Tpa> p;
                    for (auto a : en.acts) p.push_back(priv(a));
                    ae.emplace_back(en.who, en.name, std::move(p));
                }
                v.emplace_back(yugawara::binding::factory{}.storage(known_tables.at(el.table)), std::move(d), std::move(ae));
            }
            return grant ? Engine::done(std::make_unique<ts::grant_table>(std::move(v))) : Engine::done(std::make_unique<ts::revoke_table>(std::move(v)));
        }), u.req());
        if (!judge(o, r, errs, grant ? "GRANT" : "REVOKE")) return;
        ++ddl;
        for (auto& el : els) {
            auto& t = tabs.at(el.table);
            o.locks.insert(t.gen);
            // the privileges named together form one set
            auto set = [](std::vector<int> const& v) { Acts a; for (auto x : v) a.add(x); return a; };
            for (auto a : set(el.pub).s) if (grant) t.pub.add(a); else t.pub.drop(a);
            for (auto& en : el.es) {
                if (en.who == Who::all_users) {
                    t.pub.s.clear();
                    for (auto x = t.auth.begin(); x != t.auth.end();) x = x->first == *u.name ? std::next(x) : t.auth.erase(x);
                    continue;
                }
                auto name = en.who == Who::specified ? en.name : *u.name;
                for (auto a : set(en.acts).s) if (grant) t.auth[name].add(a); else t.auth[name].drop(a);
                if (t.auth[name].s.empty()) t.auth.erase(name);
            }
        }
        settle(o);
    }
    static std::string acts(std::vector<int> const& v) {
        std::string o;
        for (auto a : v) o += "CSIUD"[a];
        return o;
    }
    // ---- rows
    void need(T const& t, User const& u, std::initializer_list<int> acts, Codes& errs) {
        if (!u.standard() || !u.name) return;
        for (auto a : acts) if (!t.allows(u, a)) errs.insert(error_code::permission_error);
    }
    // values taken by a statement that stopped half way are gone
    void resync(T& t) {
        auto tb = e.table(t.t.d.name);
        for (auto& [c, st] : t.seq) {
            auto id = tb->columns()[c].default_value().element<ys::column_value_kind::sequence>()->definition_id();
            PBT_CHECK(id.has_value(), "a sequence without an id");
            auto* q = e.db->sequence_manager()->find_sequence(*id);
            PBT_CHECK(q != nullptr, "no sequence ", *id);
            st = {q->get().version_ <= 1, q->get().value_};
        }
    }
    void insert() {
        auto* t = some_table();
        if (!t) return;
        auto u = user();
        auto& tab = t->t;
        auto k = s.pick({tr::write_kind::insert, tr::write_kind::insert, tr::write_kind::insert_skip, tr::write_kind::insert_overwrite});
        std::vector<std::size_t> cs;
        std::vector<Engine::Cell> cells;
        Row_ row(tab.cols.size());
        Codes errs;
        auto seq = t->seq;
        std::set<std::pair<int, std::size_t>> used;
        for (std::size_t c = 0; c < tab.cols.size(); ++c) {
            auto& col = tab.cols[c];
            V v;
            if (c >= tab.visible() || col.read_only || (col.def != Def::nothing && s.flip())) {
                if (col.def == Def::sequence) {
                    v.k = col.t.k;
                    used.insert({t->gen, c});
                    if (!next(col, seq[c], v.i)) errs.insert(error_code::value_evaluation_exception);
                } else v = col.def == Def::value ? col.dv : V{};
                if (col.def == Def::nothing) v.null = true;
                v.k = col.t.k;
                if (v.null && !col.nullable) errs.insert(error_code::not_null_constraint_violation_exception);
            } else {
                v = gen_cell(s, tab, c);
                if (col.nullable && s.chance(15)) v.null = true;
                if (!v.null) v = stored(col.t, v);
                cs.push_back(c);
                cells.push_back({v, col.t});
            }
            row[c] = v;
        }
        if (cs.empty()) return;
        bool invalid = !errs.empty();
        for (std::size_t c = 0; c < row.size(); ++c) row[c] = stored(tab.cols[c].t, row[c]);
        auto key = invalid ? std::string{} : tab.key(row);
        if (!invalid && tab.rows.count(key)) return;
        auto& o = some_tx();
        s.note(u.show(), " inserts ", Tab::show_row(row), " into ", tab.d.name);
        Codes early;
        if (k == tr::write_kind::insert_overwrite) need(*t, u, {2, 3}, early);
        else need(*t, u, {2}, early);
        lock_error(*t, o, early);
        if (!early.empty()) errs = early;
        bool prep = early.empty() && !invalid && s.chance(10) && prepared.size() < 3 && t->seq.empty();
        auto st = e.insert(tab.d.name, cs, {cells}, k);
        if (prep) {
            s.note("  prepared");
            prepare(st, *t, 1, k == tr::write_kind::insert_overwrite ? std::vector<int>{2, 3} : std::vector<int>{2}, row);
            if (o.own) finish(o, false);
            return;
        }
        o.refs.insert(t->gen);
        auto r = e.exec(o.tx, st, u.req());
        if (early.empty()) {
            t->seq = seq;
            if (invalid) resync(*t);
            o.used.insert(used.begin(), used.end());
        }
        if (!judge(o, r, errs, "INSERT")) return;
        o.undo.push_back({t->gen, key, std::nullopt});
        tab.rows[key] = row;
        ++stored_rows;
        settle(o);
    }
    void prepare(Stmt st, T const& t, int kind, std::vector<int> acts, Row_ row) {
        Prepared p;
        std::shared_ptr<error::error_info> err;
        auto q = e.text(std::move(st));
        auto rc = e.db->create_executable(q, p.st, err, plan::compile_option{});
        PBT_CHECK(rc == status::ok, "preparing a statement: ", rc);
        p.table = t.t.d.name;
        p.gen = t.gen;
        p.version = t.version;
        p.kind = kind;
        p.acts = std::move(acts);
        p.row = std::move(row);
        prepared.push_back(std::move(p));
    }
    // a statement made before other statements
    void run_prepared() {
        if (prepared.empty()) return;
        auto i = s.idx(prepared.size());
        auto p = std::move(prepared[i]);
        prepared.erase(prepared.begin() + static_cast<std::ptrdiff_t>(i));
        auto* t = of_gen(p.gen);
        // documented (docs/internal/ddl-dml-interaction.md): unstable after the definition they were prepared against has changed or gone
        if (!t || t->version != p.version) return;
        auto u = user();
        auto& o = some_tx();
        s.note(u.show(), " runs a prepared ", p.kind ? "insert into " : "select of ", p.table);
        Codes errs;
        for (auto a : p.acts) need(*t, u, {a}, errs);
        lock_error(*t, o, errs);
        auto key = p.kind ? t->t.key(p.row) : std::string{};
        if (p.kind && t->t.rows.count(key)) { if (o.own) finish(o, false); return; }
        o.refs.insert(t->gen);
        auto r = e.run(o.tx, *p.st, u.req());
        if (!judge_query(o, r, errs, "a prepared statement")) return;
        if (p.kind) {
            o.undo.push_back({t->gen, key, std::nullopt});
            t->t.rows[key] = p.row;
        } else PBT_EQ(r.rows.size(), t->t.rows.size(), "rows of a prepared select");
        settle(o);
    }
    bool judge_query(Open& o, Result const& r, Codes const& errs, std::string const& what) { return judge(o, r, errs, what); }
    // all rows, through an index
    Stmt select(T const& t, std::string const& index, bool none = false) {
        auto tb = e.table(t.t.d.name);
        auto ix = e.index(index);
        return e.plan([=](Plan& p) {
            Engine::bind_columns(p.info, *tb);
            auto& q = p.proc();
            std::vector<tr::scan::column> cs;
            std::vector<tr::emit::column> es;
            for (std::size_t c = 0; c < tb->columns().size(); ++c) {
                auto v = p.var(tb->columns()[c].shared_type());
                cs.emplace_back(Engine::col(*tb, c), v);
                es.emplace_back(v, std::string{tb->columns()[c].simple_name()});
            }
            auto& sc = q.op<tr::scan>(Engine::rel(ix), cs, tr::scan::endpoint{}, tr::scan::endpoint{});
            auto& em = q.op<tr::emit>(es);
            sc.output() >> em.input();
            (void)none;
        });
    }
    void query() {
        auto* t = some_table();
        if (!t) return;
        auto u = user();
        auto& o = some_tx();
        auto& tab = t->t;
        auto name = tab.secs.empty() || s.flip() ? tab.d.name : tab.secs[s.idx(tab.secs.size())].name;
        s.note(u.show(), " reads ", tab.d.name, " by ", name);
        Codes errs;
        need(*t, u, {1}, errs);
        lock_error(*t, o, errs);
        auto st = select(*t, name);
        if (errs.empty() && s.chance(15) && prepared.size() < 3) {
            s.note("  prepared");
            prepare(st, *t, 0, {1}, {});
            if (o.own) finish(o, false);
            return;
        }
        o.refs.insert(t->gen);
        auto r = e.exec(o.tx, st, u.req());
        if (!judge(o, r, errs, "SELECT")) return;
        std::multiset<std::string> want, got;
        for (auto& [k, row] : tab.rows) want.insert(Tab::show_row(Row_(row.begin(), row.begin() + static_cast<std::ptrdiff_t>(tab.visible()))));
        for (auto& row : r.rows) got.insert(Tab::show_row(row));
        PBT_EQ(got.size(), want.size(), "rows read by ", name);
        PBT_CHECK(got == want, "rows read by ", name, " differ");
        settle(o);
    }
    void erase_rows() {
        auto* t = some_table();
        if (!t) return;
        auto u = user();
        auto& o = some_tx();
        auto& tab = t->t;
        s.note(u.show(), " deletes all of ", tab.d.name);
        Codes errs;
        need(*t, u, {1, 4}, errs);
        lock_error(*t, o, errs);
        o.refs.insert(t->gen);
        auto tb = e.table(tab.d.name);
        auto ix = e.index(tab.d.name);
        auto r = e.exec(o.tx, e.plan([&](Plan& p) {
            Engine::bind_columns(p.info, *tb);
            auto& q = p.proc();
            std::vector<tr::scan::column> cs;
            std::vector<tr::write::key> ks;
            for (auto& k : tab.pk) {
                auto v = p.var(tab.cols[k.col].t);
                cs.emplace_back(Engine::col(*tb, k.col), v);
                ks.emplace_back(v, Engine::col(*tb, k.col));
            }
            auto& sc = q.op<tr::scan>(Engine::rel(ix), cs, tr::scan::endpoint{}, tr::scan::endpoint{});
            auto& w = q.op<tr::write>(tr::write_kind::delete_, Engine::rel(ix), ks, std::vector<tr::write::column>{});
            sc.output() >> w.input();
        }), u.req());
        if (!judge(o, r, errs, "DELETE")) return;
        for (auto& [k, row] : tab.rows) o.undo.push_back({t->gen, k, row});
        tab.rows.clear();
        settle(o);
    }
    // ---- questions about the catalogue
    void describe() {
        auto u = user();
        auto name = any_name();
        executor::dto::describe_table d;
        std::shared_ptr<error::error_info> err;
        auto rc = executor::describe(name, d, err, u.req());
        auto it = tabs.find(name);
        bool may = it != tabs.end() && (!u.standard() || (u.name && (it->second.allows(u, 1) || it->second.allows(u, 2) || it->second.allows(u, 3) || it->second.allows(u, 4))));
        s.note(u.show(), " describes ", name);
        if (it == tabs.end()) {
            PBT_CHECK(rc == status::err_not_found && err && err->code() == error_code::target_not_found_exception, "description of a missing table: ", rc);
        } else if (!may) {
            PBT_CHECK(rc != status::ok && err && err->code() == error_code::permission_error, "description for ", u.show(), ": ", rc);
        } else {
            PBT_CHECK(rc == status::ok, "description: ", rc);
            auto& t = it->second.t;
            PBT_EQ(d.table_name_, name);
            PBT_EQ(d.columns_.size(), t.visible(), "columns described");
            for (std::size_t c = 0; c < t.visible(); ++c) {
                PBT_EQ(d.columns_[c].name_, t.cols[c].name, "described name");
                PBT_CHECK(!d.columns_[c].nullable_ || *d.columns_[c].nullable_ == t.cols[c].nullable, "described nullability of column ", c);
            }
            PBT_EQ(d.primary_key_.size(), t.d.keys.size(), "described key");
            for (std::size_t k = 0; k < t.d.keys.size(); ++k) PBT_EQ(d.primary_key_[k], t.cols[t.d.keys[k].col].name, "described key column ", k);
        }
        std::vector<std::string> l;
        rc = e.db->list_tables(l, err, u.req());
        PBT_CHECK(rc == status::ok, "list of tables: ", rc);
        std::set<std::string> want;
        for (auto& [n, t] : tabs) if (!u.standard() || (u.name && (t.allows(u, 1) || t.allows(u, 2) || t.allows(u, 3) || t.allows(u, 4)))) want.insert(n);
        PBT_CHECK(std::set<std::string>(l.begin(), l.end()) == want && l.size() == want.size(), "tables listed for ", u.show(), ": ", l.size(), " in place of ", want.size());
    }
    // ---- the engine's own work
    void maintain() {
        s.note("maintenance");
        auto names = storage::maintenance_storage(nullptr);
        std::multiset<std::string> got(names.begin(), names.end());
        auto idle = std::none_of(open.begin(), open.end(), [](auto& o) { return !o.refs.empty(); });
        std::vector<Reserved> rest, may;
        for (auto& r : reserved) {
            // after a restart it is not told which of the transactions that came later hold it back
            if (r.free) { if (!idle) { may.push_back(r); continue; } }
            else if (std::any_of(open.begin(), open.end(), [&](auto& o) { return o.refs.count(r.gen); })) { rest.push_back(r); continue; }
            auto it = got.find(r.name);
            PBT_CHECK(it != got.end(), "storage of ", r.name, " is not deleted");
            got.erase(it);
        }
        for (auto& r : may) {
            auto it = got.find(r.name);
            if (it == got.end()) rest.push_back(r);
            else got.erase(it);
        }
        PBT_CHECK(got.empty(), "storage of ", *got.begin(), " is deleted while in use");
        reserved = rest;
    }
    void restart() {
        while (!open.empty()) finish(open.front(), s.flip());
        s.note("restart");
        ++restarts;
        prepared.clear();
        e.restart();
        for (auto& r : reserved) r.free = true;
        known_tables.clear();
        known_indices.clear();
        for (auto& [n, t] : tabs) {
            t.seq = t.durable;
            t.t.bound(e);
            know(n);
        }
    }
    void check(std::string const& when) {
        auto& sm = *global::storage_manager();
        std::set<std::string> ts, want_ts, is, want_is;
        e.db->tables()->each_relation([&](std::string_view, std::shared_ptr<ys::relation const> const& r) { ts.insert(std::string{r->simple_name()}); });
        e.db->tables()->each_index([&](std::string_view, std::shared_ptr<ys::index const> const& i) { is.insert(std::string{i->simple_name()}); });
        std::size_t live = 0;
        for (auto& [n, t] : tabs) {
            want_ts.insert(n);
            want_is.insert(n);
            for (auto& x : t.t.secs) want_is.insert(x.name);
            live += 1 + t.t.secs.size();
        }
        for (auto& n : want_ts) PBT_CHECK(ts.count(n), when, ": no table ", n);
        for (auto& n : want_is) PBT_CHECK(is.count(n), when, ": no index ", n);
        for (auto& n : ts) PBT_CHECK(want_ts.count(n) || n.front() == '_', when, ": an unexpected table ", n);
        for (auto& n : is) PBT_CHECK(want_is.count(n) || n.front() == '_', when, ": an unexpected index ", n);
        for (int i = 0; i < 3; ++i) {
            auto n = "T" + std::to_string(i);
            PBT_CHECK(sm.find_by_name(n).has_value() == (tabs.count(n) != 0), when, ": the storage of ", n);
            for (int j = 0; j < 3; ++j) PBT_CHECK(sm.find_by_name(cat(n, "_I", j)).has_value() == tabs_have(cat(n, "_I", j)), when, ": the storage of ", n, "_I", j);
        }
        PBT_EQ(fake::st().tables.size(), base_storages + live + reserved.size(), when, ": storages");
        PBT_EQ(sm.size(), base_entries + live + reserved.size(), when, ": storage entries");
        for (auto& [n, t] : tabs) {
            t.t.check(e, when);
            auto en = sm.find_entry(*sm.find_by_name(n));
            auto pub = of(en->public_actions());
            PBT_CHECK(pub == t.pub, when, ": public privileges on ", n, " are ", show(pub), " in place of ", show(t.pub));
            std::size_t k = 0;
            for (auto& [name, as] : en->authorized_actions()) {
                ++k;
                auto it = t.auth.find(name);
                auto have = of(as);
                PBT_CHECK(it != t.auth.end() && it->second == have, when, ": privileges of ", name, " on ", n, " are ", show(have), " in place of ", it == t.auth.end() ? std::string{} : show(it->second));
            }
            PBT_EQ(k, t.auth.size(), when, ": users with privileges on ", n);
            auto tb = e.table(n);
            for (std::size_t c = 0; c < t.t.cols.size(); ++c) {
                auto& col = tb->columns()[c];
                PBT_EQ(std::string{col.simple_name()}, t.t.cols[c].name, when, ": name of a column");
                PBT_CHECK(col.type() == *tk(t.t.cols[c].t), when, ": type of column ", c, " of ", n);
                PBT_EQ(col.criteria().nullity().nullable(), t.t.cols[c].nullable, when, ": nullability of column ", c);
            }
        }
        PBT_EQ(fake::st().open_iterators, 0U, "iterators left open");
        PBT_CHECK(!fake::st().misuse, fake::st().misuse_what);
    }
    void run() {
        auto n = s.range(6, 40);
        for (i64 i = 0; i < n; ++i) {
            auto op = i < 2 ? 0 : s.range(0, 39);
            if (op < 5) create_table();
            else if (op < 7) drop_table();
            else if (op < 9) truncate();
            else if (op < 13) create_index();
            else if (op < 15) drop_index();
            else if (op < 19) privileges(true);
            else if (op < 21) privileges(false);
            else if (op < 27) insert();
            else if (op < 29) query();
            else if (op < 30) erase_rows();
            else if (op < 31) describe();
            else if (op < 33) maintain();
            else if (op < 34) restart();
            else if (op < 36) run_prepared();
            else if (op < 38 && open.size() < 2) {
                open.emplace_back();
                open.back().tx = e.begin();
                s.note("begin ", open.back().tx->surrogate_id());
            } else if (!open.empty()) {
                auto& o = open[s.idx(open.size())];
                bool c = s.chance(60);
                s.note(c ? "commit " : "abort ", o.tx->surrogate_id());
                finish(o, c);
            }
            check("after the step");
        }
        while (!open.empty()) finish(open.front(), s.flip());
        maintain();
        PBT_EQ(reserved.size(), 0U, "storages left");
        check("at the end");
        restart();
        check("after the last restart");
        if (ddl >= 3 && stored_rows > 0) s.nontrivial();
        if (denied) s.label("permission denied");
        if (blocked) s.label("blocked");
        if (restarts > 1) s.label("restarted");
    }
};
PBT_FACET(f_ddl, "definitions, privileges and rows follow the statements of a history, across restarts", "at least three definition or privilege statements took effect and a row was stored", .quick = 12000, .hang_s = 120) {
    World w{s, false};
    w.run();
}
PBT_FACET(f_ddl_faults, "a definition statement that fails may be tried again", "at least three definition or privilege statements took effect and a row was stored", .quick = 6000, .hang_s = 120) {
    World w{s, true};
    w.run();
}
}  // namespace
