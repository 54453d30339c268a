// The whole engine over the in-memory transaction engine: statements are built as the compiler would hand them over,
// registered as SQL texts, and run through the public entry points.
#include "fake_sharksfin.inc"
#include <jogasaki/api.h>
#include <jogasaki/api/impl/database.h>
#include <jogasaki/api/impl/error_info.h>
#include <jogasaki/api/impl/transaction_store.h>
#include <jogasaki/configuration.h>
#include <jogasaki/constants.h>
#include <jogasaki/executor/executor.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/transaction_context.h>
#include <takatori/plan/aggregate.h>
#include <takatori/plan/forward.h>
#include <takatori/plan/graph.h>
#include <takatori/plan/group.h>
#include <takatori/plan/process.h>
#include <takatori/relation/apply.h>
#include <takatori/relation/buffer.h>
#include <takatori/relation/emit.h>
#include <takatori/relation/filter.h>
#include <takatori/relation/find.h>
#include <takatori/relation/identify.h>
#include <takatori/relation/join_find.h>
#include <takatori/relation/join_scan.h>
#include <takatori/relation/project.h>
#include <takatori/relation/scan.h>
#include <takatori/relation/step/aggregate.h>
#include <takatori/relation/step/flatten.h>
#include <takatori/relation/step/join.h>
#include <takatori/relation/step/offer.h>
#include <takatori/relation/step/take_cogroup.h>
#include <takatori/relation/step/take_flat.h>
#include <takatori/relation/step/take_group.h>
#include <takatori/relation/values.h>
#include <takatori/relation/write.h>
#include <takatori/scalar/cast.h>
#include <takatori/scalar/compare.h>
#include <takatori/scalar/immediate.h>
#include <takatori/scalar/variable_reference.h>
#include <takatori/statement/create_index.h>
#include <takatori/statement/create_table.h>
#include <takatori/statement/drop_index.h>
#include <takatori/statement/drop_table.h>
#include <takatori/statement/empty.h>
#include <takatori/statement/execute.h>
#include <takatori/statement/grant_table.h>
#include <takatori/statement/revoke_table.h>
#include <takatori/statement/truncate_table.h>
#include <takatori/statement/write.h>
#include <mizugaki/front_end.h>
#include <glog/logging.h>
#include <yugawara/storage/basic_prototype_processor.h>
#include "tree.h"

namespace eng {
using namespace rec;
using namespace jogasaki;
namespace tr = takatori::relation;
namespace tp = takatori::plan;
namespace ts = takatori::statement;
namespace ys = yugawara::storage;
using takatori::descriptor::variable;
using tree::Expr;
using tree::sc::immediate;
using tree::sc::variable_reference;
using Stmt = mizugaki::front_end;
using yugawara::analyzer::block;

inline Expr lit(yugawara::compiled_info& info, V const& v, Ty const& t) {
    Type ty = v.null ? std::make_shared<tt::unknown>() : tk(t);
    auto e = std::make_shared<immediate>(tree::value_of(v), v.null ? ty : tk(t));
    info.bind(*e, ty);
    return e;
}

struct Engine;

// ---- an execution plan under construction
struct Plan {
    struct Proc {
        Plan* plan;
        tp::process* p;
        std::deque<std::shared_ptr<block>> heads{};
        template <class T, class... A>
        T& op(A&&... a) { return p->operators().insert<T>(std::forward<A>(a)...); }
    };
    std::unique_ptr<ts::execute> st = std::make_unique<ts::execute>();
    yugawara::compiled_info info{};
    std::deque<Proc> procs{};
    std::deque<block> blocks{};

    variable var(Type t) {
        variable v{std::make_shared<int const>(0)};
        info.bind(v, std::move(t));
        return v;
    }
    variable var(Ty const& t) { return var(tk(t)); }
    Proc& proc() { procs.push_back(Proc{this, &st->execution_plan().insert<tp::process>()}); return procs.back(); }
    Expr ref(variable const& v, Ty const& t) {
        auto e = std::make_shared<variable_reference>(v);
        info.bind(*e, tk(t));
        return e;
    }
    Expr lit(V const& v, Ty const& t) { return eng::lit(info, v, t); }
    static void defs(tr::expression const& e, std::unordered_set<variable>& out) {
        using k = tr::expression_kind;
        auto maps = [&](auto const& cols) { for (auto& c : cols) out.insert(c.destination()); };
        switch (e.kind()) {
            case k::find: maps(static_cast<tr::find const&>(e).columns()); break;
            case k::scan: maps(static_cast<tr::scan const&>(e).columns()); break;
            case k::join_find: maps(static_cast<tr::join_find const&>(e).columns()); break;
            case k::join_scan: maps(static_cast<tr::join_scan const&>(e).columns()); break;
            case k::values: for (auto& c : static_cast<tr::values const&>(e).columns()) out.insert(c); break;
            case k::project: for (auto& c : static_cast<tr::project const&>(e).columns()) out.insert(c.variable()); break;
            case k::apply: for (auto& c : static_cast<tr::apply const&>(e).columns()) out.insert(c.variable()); break;
            case k::take_flat: maps(static_cast<tr::step::take_flat const&>(e).columns()); break;
            case k::take_group: maps(static_cast<tr::step::take_group const&>(e).columns()); break;
            case k::take_cogroup: for (auto& g : static_cast<tr::step::take_cogroup const&>(e).groups()) maps(g.columns()); break;
            case k::aggregate_group: for (auto& c : static_cast<tr::step::aggregate const&>(e).columns()) out.insert(c.destination()); break;
            default: break;
        }
    }
    // basic blocks: chains of operators, cut where the flow divides
    void cut(tp::process& p, block& b, tr::expression const* e) {
        auto& nodes = p.operators().nodes;
        while (e) {
            for (auto& n : nodes) if (n.get() == e) b.exprs.push_back(n);
            defs(*e, b.defs);
            if (e->output_ports().size() != 1) break;
            auto o = e->output().opposite();
            e = o ? &o->owner() : nullptr;
        }
        if (!e) return;
        for (auto& port : e->output_ports()) {
            b.downs.emplace_back();
            cut(p, b.downs.back(), &port.opposite()->owner());
        }
    }
    void finish() {
        for (auto& q : procs)
            for (auto& n : q.p->operators().nodes)
                if (n->input_ports().empty()) {
                    blocks.emplace_back();
                    cut(*q.p, blocks.back(), n.get());
                    q.p->operators().blocks = &blocks.back();
                    break;
                }
    }
};

// ---- definitions
enum class Def { nothing, value, sequence, function };
struct Col {
    std::string name;
    Ty t{};
    bool nullable = true;
    Def def = Def::nothing;
    V dv{};
    i64 init = 1, inc = 1, lo = 1, hi = INT64_MAX;
    bool cycle = false;
    bool read_only = false;
};
struct KeyRef { std::size_t col; bool asc = true; };
struct TableDef {
    std::string name;
    std::vector<Col> cols{};
    std::vector<KeyRef> keys{};  // none: the engine makes a key
};
struct IndexDef {
    std::string name;
    std::vector<KeyRef> keys{};
};

using Tx = std::shared_ptr<transaction_context>;
struct Result {
    status prepare = status::ok, rc = status::ok;
    bool has_rows = false;
    std::vector<std::vector<V>> rows{};
    std::vector<std::string> names{};
    std::shared_ptr<error::error_info> err{};
    std::shared_ptr<request_statistics> stats{};
    [[nodiscard]] bool ok() const { return prepare == status::ok && rc == status::ok; }
    [[nodiscard]] error_code code() const { return err ? err->code() : error_code::none; }
    [[nodiscard]] i64 count(counter_kind k) const {
        i64 r = -1;
        if (stats) stats->each_counter([&](counter_kind kk, request_execution_counter const& c) { if (kk == k && c.count()) r = *c.count(); });
        return r;
    }
    [[nodiscard]] std::string what() const { return pbt::cat("prepare ", prepare, " rc ", rc, err ? pbt::cat(" code ", err->code(), " \"", err->message(), "\"") : std::string{}); }
};

inline V from_record(api::record const& r, api::record_meta const& m, std::size_t i) {
    V v;
    using ak = api::field_type_kind;
    switch (m.at(i).kind()) {
        case ak::boolean: v.k = K::boolean; break;
        case ak::int4: v.k = K::int4; break;
        case ak::int8: v.k = K::int8; break;
        case ak::float4: v.k = K::float4; break;
        case ak::float8: v.k = K::float8; break;
        case ak::decimal: v.k = K::decimal; break;
        case ak::character: v.k = K::character; break;
        case ak::octet: v.k = K::octet; break;
        case ak::date: v.k = K::date; break;
        case ak::time_of_day: v.k = K::time_of_day; break;
        case ak::time_point: v.k = K::time_point; break;
        default: v.null = true; return v;
    }
    if (r.is_null(i)) { v.null = true; return v; }
    switch (v.k) {
        case K::boolean: v.i = r.get_boolean(i); break;
        case K::int4: v.i = r.get_int4(i); break;
        case K::int8: v.i = r.get_int8(i); break;
        case K::float4: v.f = r.get_float4(i); break;
        case K::float8: v.d = r.get_float8(i); break;
        case K::decimal: v.t = r.get_decimal(i); break;
        case K::character: v.s = std::string{r.get_character(i)}; break;
        case K::octet: v.s = std::string{r.get_octet(i)}; break;
        case K::date: v.i = r.get_date(i).days_since_epoch(); break;
        case K::time_of_day: v.i = static_cast<i64>(r.get_time_of_day(i).time_since_epoch().count()); break;
        case K::time_point: {
            auto p = r.get_time_point(i);
            v.i = p.seconds_since_epoch().count();
            v.n = static_cast<std::int32_t>(p.subsecond().count());
            break;
        }
        default: break;
    }
    return v;
}

struct Engine {
    std::shared_ptr<configuration> cfg;
    std::shared_ptr<api::impl::database> db;
    std::map<std::string, Stmt> sql{};
    std::vector<std::shared_ptr<void>> keep{};  // blocks of the plans compiled so far
    std::size_t n = 0;
    bool running = false;

    explicit Engine(std::function<void(configuration&)> const& f = {}) {
        fake::reset();
        static bool once = (FLAGS_minloglevel = 4, FLAGS_stderrthreshold = 4, FLAGS_logtostderr = true, true);
        (void)once;
        cfg = std::make_shared<configuration>();
        cfg->single_thread(true);
        cfg->enable_maintenance_thread(false);
        cfg->enable_truncate(true);
        if (f) f(*cfg);
        mizugaki::front_end::lookup() = [this](std::string const& q) {
            auto it = sql.find(q);
            return it == sql.end() ? Stmt{} : it->second;
        };
        start();
    }
    Engine(Engine const&) = delete;
    ~Engine() {
        if (running) stop();
        mizugaki::front_end::lookup() = {};
    }
    static std::function<void(api::impl::database&)>& created() { static std::function<void(api::impl::database&)> f; return f; }
    void start() {
        db = std::static_pointer_cast<api::impl::database>(api::create_database(cfg));
        if (created()) created()(*db);
        auto rc = db->start();
        PBT_CHECK(rc == status::ok, "database start ", rc);
        running = true;
    }
    void stop() {
        running = false;
        auto rc = db->stop();
        db.reset();
        sql.clear();
        keep.clear();
        PBT_CHECK(rc == status::ok, "database stop ", rc);
    }
    void restart() { stop(); start(); }

    // ---- catalog
    [[nodiscard]] std::shared_ptr<ys::table const> table(std::string_view name) const { return db->tables()->find_table(name); }
    [[nodiscard]] std::shared_ptr<ys::index const> index(std::string_view name) const { return db->tables()->find_index(name); }
    // a table's columns get their types for the statement being compiled
    static void bind_columns(yugawara::compiled_info& info, ys::table const& t) {
        for (auto& c : t.columns()) info.bind(yugawara::binding::factory{}(c), c.shared_type());
    }
    static variable col(ys::table const& t, std::size_t i) { return yugawara::binding::factory{}(t.columns()[i]); }
    static takatori::descriptor::relation rel(std::shared_ptr<ys::index const> i) { return yugawara::binding::factory{}(std::move(i)); }

    // ---- statements
    static yugawara::schema::declaration location() { return {std::nullopt, "public", nullptr, nullptr, nullptr, nullptr}; }
    static Stmt stmt(std::function<yugawara::compiler_result(yugawara::compiler_options&)> f, bool plan = false) {
        Stmt s;
        s.k = plan ? Stmt::kind::plan : Stmt::kind::statement;
        s.finish = std::move(f);
        return s;
    }
    static yugawara::compiler_result done(std::unique_ptr<ts::statement> s, yugawara::compiled_info i = {}) { return {std::move(s), std::move(i)}; }
    static ys::column make_column(Col const& c, std::shared_ptr<yugawara::function::declaration const> fn = {}) {
        ys::column_value cv;
        if (c.def == Def::value) cv = ys::column_value{tree::value_of(c.dv)};
        else if (c.def == Def::sequence) cv = ys::column_value{std::make_shared<ys::sequence const>("tmp", c.init, c.inc, c.lo, c.hi, c.cycle)};
        else if (c.def == Def::function) cv = ys::column_value{std::move(fn)};
        ys::column_feature_set f{};
        if (c.read_only) f.insert(ys::column_feature::read_only);
        return ys::column{c.name, tk(c.t), yugawara::variable::criteria{yugawara::variable::nullity{c.nullable}}, std::move(cv), f};
    }
    static Stmt create_table(TableDef const& d) {
        return stmt([d](yugawara::compiler_options& o) {
            auto t = std::make_shared<ys::table>(d.name);
            for (auto& c : d.cols) t->columns().emplace_back(make_column(c));
            std::vector<ys::index::key> keys;
            for (auto& k : d.keys) keys.emplace_back(t->columns()[k.col], k.asc ? ys::sort_direction::ascendant : ys::sort_direction::descendant);
            auto i = std::make_shared<ys::index>(std::shared_ptr<ys::table const>{t}, d.name, std::move(keys), std::vector<ys::index::column_ref>{});
            auto& sp = static_cast<ys::basic_prototype_processor&>(*o.storage_processor());
            sp.ensure(location(), *t, *i, [](std::string const&) {});
            yugawara::binding::factory f{};
            return done(std::make_unique<ts::create_table>(f.storage(std::shared_ptr<ys::table const>{t}), f.storage(std::shared_ptr<ys::index const>{i})));
        });
    }
    Stmt create_index(std::string const& tname, IndexDef const& d) {
        auto t = table(tname);
        return stmt([d, t](yugawara::compiler_options& o) {
            std::vector<ys::index::key> keys;
            for (auto& k : d.keys) keys.emplace_back(t->columns()[k.col], k.asc ? ys::sort_direction::ascendant : ys::sort_direction::descendant);
            auto i = std::make_shared<ys::index>(t, d.name, std::move(keys), std::vector<ys::index::column_ref>{});
            auto& sp = static_cast<ys::basic_prototype_processor&>(*o.storage_processor());
            sp.ensure(location(), *i, [](std::string const&) {});
            return done(std::make_unique<ts::create_index>(yugawara::binding::factory{}.storage(std::shared_ptr<ys::index const>{i})));
        });
    }
    Stmt drop_table(std::string const& name) {
        auto t = table(name);
        return stmt([t](yugawara::compiler_options&) { return done(std::make_unique<ts::drop_table>(yugawara::binding::factory{}.storage(t))); });
    }
    Stmt drop_index(std::string const& name) {
        auto i = index(name);
        return stmt([i](yugawara::compiler_options&) { return done(std::make_unique<ts::drop_index>(yugawara::binding::factory{}.storage(i))); });
    }
    Stmt truncate(std::string const& name, bool restart_identity) {
        auto t = table(name);
        return stmt([t, restart_identity](yugawara::compiler_options&) {
            ts::truncate_table_option_kind_set o{};
            if (restart_identity) o.insert(ts::truncate_table_option_kind::restart_identity);
            return done(std::make_unique<ts::truncate_table>(yugawara::binding::factory{}.storage(t), o));
        });
    }
    // INSERT ... VALUES with literals of the given types
    struct Cell { V v; Ty t; };
    Stmt insert(std::string const& tname, std::vector<std::size_t> const& cols, std::vector<std::vector<Cell>> const& rows, tr::write_kind k = tr::write_kind::insert) {
        auto t = table(tname);
        auto i = index(tname);
        return stmt([=](yugawara::compiler_options&) {
            yugawara::compiled_info info;
            bind_columns(info, *t);
            std::vector<variable> cs;
            for (auto c : cols) cs.push_back(col(*t, c));
            std::vector<ts::write::tuple> tuples;
            for (auto& r : rows) {
                std::vector<Expr> es;
                for (auto& c : r) es.push_back(lit(info, c.v, c.t));
                tuples.emplace_back(std::move(es));
            }
            return done(std::make_unique<ts::write>(rel(i), std::move(cs), std::move(tuples), k), info);
        });
    }
    // a plan, built when the text is compiled
    Stmt plan(std::function<void(Plan&)> f) {
        return stmt([this, f](yugawara::compiler_options&) {
            auto p = std::make_shared<Plan>();
            f(*p);
            p->finish();
            keep.push_back(p);
            return done(std::move(p->st), p->info);
        }, true);
    }

    // ---- running
    std::string text(Stmt s) {
        auto q = "Q" + std::to_string(n++);
        sql[q] = std::move(s);
        return q;
    }
    Tx begin(api::transaction_option const& o = api::transaction_option{}) {
        Tx out;
        auto rc = db->create_transaction_internal(out, o);
        PBT_CHECK(rc == status::ok && out, "begin ", rc);
        return out;
    }
    Result exec(Tx const& tx, Stmt s, request_info const& req = {}) {
        Result r;
        auto q = text(std::move(s));
        std::unique_ptr<api::executable_statement> ex;
        r.prepare = db->create_executable(q, ex, r.err, plan::compile_option{});
        sql.erase(q);
        if (r.prepare != status::ok) return r;
        r = run(tx, *ex, req);
        return r;
    }
    Result run(Tx const& tx, api::executable_statement& ex, request_info const& req = {}) {
        Result r;
        std::unique_ptr<api::result_set> rs;
        r.rc = executor::execute(*db, tx, ex, rs, r.err, r.stats, req);
        if (rs) {
            r.has_rows = true;
            auto* m = rs->meta();
            auto* em = ex.meta();
            for (std::size_t i = 0; em && i < em->field_count(); ++i) r.names.emplace_back(em->field_name(i).value_or("?"));
            for (std::size_t i = 0; i < m->field_count(); ++i) {  // names are not kept
                auto n = m->field_name(i);
                PBT_CHECK(!n || (i < r.names.size() && *n == r.names[i]), "name of field ", i, " of a result set");
            }
            auto it = rs->iterator();
            while (it->has_next()) {
                auto* row = it->next();
                std::vector<V> vs;
                for (std::size_t i = 0; i < m->field_count(); ++i) vs.push_back(from_record(*row, *m, i));
                r.rows.push_back(std::move(vs));
            }
            rs->close();
        }
        return r;
    }
    status commit(Tx const& tx, api::commit_option o = api::commit_option{}) { return executor::commit(*db, tx, o); }
    void abort(Tx const& tx) { executor::abort_transaction(tx); }
    // one statement in a transaction of its own, which has to succeed
    Result must(Stmt s) {
        auto tx = begin();
        auto r = exec(tx, std::move(s));
        PBT_CHECK(r.ok(), "statement failed: ", r.what());
        auto rc = commit(tx);
        PBT_CHECK(rc == status::ok, "commit failed: ", rc);
        return r;
    }
    // all rows of a table as the engine stores them under its name
    [[nodiscard]] std::shared_ptr<fake::Table> storage(std::string_view name) const {
        auto e = global::storage_manager()->find_by_name(name);
        if (!e) return {};
        auto key = global::storage_manager()->get_storage_key(name);
        auto it = fake::st().tables.find(std::string{key ? *key : name});
        return it == fake::st().tables.end() ? nullptr : it->second;
    }
    // SELECT of all columns through a full scan
    Stmt select_all(std::string const& tname) {
        auto t = table(tname);
        auto i = index(tname);
        return plan([=](Plan& p) {
            bind_columns(p.info, *t);
            auto& q = p.proc();
            std::vector<tr::scan::column> cs;
            std::vector<tr::emit::column> es;
            for (std::size_t c = 0; c < t->columns().size(); ++c) {
                auto v = p.var(t->columns()[c].shared_type());
                cs.emplace_back(col(*t, c), v);
                es.emplace_back(v, std::string{t->columns()[c].simple_name()});
            }
            auto& sc = q.op<tr::scan>(rel(i), cs, tr::scan::endpoint{}, tr::scan::endpoint{});
            auto& em = q.op<tr::emit>(es);
            sc.output() >> em.input();
        });
    }
};
}  // namespace eng
