// P29: requests of the SQL service, as sessions send them, against a model of transactions, prepared statements and a
// table: every request gets exactly one answer, of its own kind, saying what happened.
#pragma once
#include "table.inc"
#include <jogasaki/api/impl/map_error_code.h>
#include <jogasaki/api/impl/service.h>
#include <jogasaki/api/impl/statement_store.h>
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/utils/convert_offset.h>
#include <list>
#include <mizugaki/analyzer/sql_analyzer.h>
using namespace eng;
namespace {
namespace sq = jogasaki::proto::sql;
namespace rq = jogasaki::proto::sql::request;
namespace rs = jogasaki::proto::sql::response;
namespace sv = tateyama::api::server;
namespace ser = jogasaki::serializer;
using tateyama::proto::diagnostics::Code;
using ECode = sq::error::Code;

struct Writer : sv::writer {
    std::string data{};
    std::size_t committed = 0;
    int fail_at = -1;
    bool at_commit = false, failed = false;
    [[nodiscard]] bool full() const { return fail_at >= 0 && static_cast<int>(data.size()) >= fail_at; }
    tateyama::status fail() { failed = true; return tateyama::status::unknown; }
    tateyama::status write(char const* d, std::size_t n) override {
        if (!at_commit && full()) return fail();
        data.append(d, n);
        return tateyama::status::ok;
    }
    tateyama::status commit() override {
        if (at_commit && full() && committed != data.size()) return fail();
        committed = data.size();
        return tateyama::status::ok;
    }
};
struct Channel : sv::data_channel {
    std::vector<std::shared_ptr<Writer>> all{};
    std::set<sv::writer*> open{};
    std::size_t limit = 0, most = 0;
    int fail_at = -1;
    bool at_commit = false, refuse = false, refused = false, foreign = false;
    tateyama::status acquire(std::shared_ptr<sv::writer>& w) override {
        if (refuse) { refused = true; return tateyama::status::unknown; }
        auto x = std::make_shared<Writer>();
        x->fail_at = fail_at;
        x->at_commit = at_commit;
        all.push_back(x);
        open.insert(x.get());
        most = std::max(most, open.size());
        w = x;
        return tateyama::status::ok;
    }
    tateyama::status release(sv::writer& w) override {
        if (!open.erase(&w)) foreign = true;
        return tateyama::status::ok;
    }
};
struct Request : sv::request {
    std::string body{};
    std::size_t sid = 0;
    sv::session_store* store = nullptr;
    [[nodiscard]] std::size_t session_id() const override { return sid; }
    [[nodiscard]] std::string_view payload() const override { return body; }
    [[nodiscard]] sv::session_store& session_store() override { return *store; }
};
struct Blob : sv::blob_info {};
// what a client sees of its request
struct Seen {
    std::vector<std::string> heads{}, bodies{};
    std::vector<tateyama::proto::diagnostics::Record> errors{};
    std::vector<std::string> order{};
    std::shared_ptr<Channel> ch{};
    std::string channel{};
    std::size_t blobs = 0;
    bool released = false, misuse = false, cancel = false;
    int fail_at = -1;
    bool at_commit = false, refuse_channel = false, refuse_writer = false;
    [[nodiscard]] std::size_t finals() const { return bodies.size() + errors.size(); }
};
struct Response : sv::response {
    std::shared_ptr<Seen> o;
    explicit Response(std::shared_ptr<Seen> s) : o(std::move(s)) {}
    tateyama::status body_head(std::string_view b) override { o->heads.emplace_back(b); o->order.emplace_back("head"); return tateyama::status::ok; }
    tateyama::status body(std::string_view b) override { o->bodies.emplace_back(b); o->order.emplace_back("body"); return tateyama::status::ok; }
    void error(tateyama::proto::diagnostics::Record const& r) override { o->errors.push_back(r); o->order.emplace_back("error"); }
    tateyama::status acquire_channel(std::string_view name, std::shared_ptr<sv::data_channel>& ch, std::size_t n) override {
        if (o->refuse_channel) return tateyama::status::unknown;
        if (o->ch) o->misuse = true;
        o->ch = std::make_shared<Channel>();
        o->ch->limit = n;
        o->ch->fail_at = o->fail_at;
        o->ch->at_commit = o->at_commit;
        o->ch->refuse = o->refuse_writer;
        o->channel = name;
        o->order.emplace_back("acquire");
        ch = o->ch;
        return tateyama::status::ok;
    }
    tateyama::status release_channel(sv::data_channel& c) override {
        if (&c != o->ch.get() || o->released || !o->ch->open.empty()) o->misuse = true;
        o->released = true;
        o->order.emplace_back("release");
        return tateyama::status::ok;
    }
    tateyama::status add_blob(std::unique_ptr<sv::blob_info> b) override { o->blobs += b != nullptr; return tateyama::status::ok; }
    [[nodiscard]] bool check_cancel() const override { return o->cancel; }
};

struct Session {
    std::size_t id;
    bool alice = false;
    std::unique_ptr<sv::session_store> store = std::make_unique<sv::session_store>();
    sv::session_info info{};
    sv::session_variable_set vars{};
};
struct TxM {
    u64 handle;
    std::size_t sess;
    enum { active, aborted, committed, committing } st = active;
    bool gone = false;
    bool wrote = false, readonly = false, longtx = false;
    bool known = true;           // the error it holds is known
    std::optional<error_code> err{};
    std::map<std::string, Row_> before{};
    std::string id{}, label{};
    bool ended = false;          // committed or rolled back by a request
};
enum class Q { select, vars, insert, insert_vars, create, bad_text, bad_analysis };
struct Ph { std::string name; sq::common::AtomType t; Ty ty; };
struct StM {
    u64 handle;
    std::size_t sess;
    Q q;
    std::vector<Ph> phs;
    std::vector<Engine::Cell> cells{};
    std::string text{};
    bool gone = false;
};
struct Answer {
    std::shared_ptr<Seen> seen;
    rs::Response r{};
    bool diag = false;
    Code dcode{};
    std::optional<rs::Error> err{};
    [[nodiscard]] bool ok() const { return !diag && !err; }
    [[nodiscard]] std::string what() const { return diag ? cat("diagnostics ", dcode, " ", seen->errors[0].message()) : err ? cat("error ", err->code(), " \"", err->detail(), "\"") : std::string{"success"}; }
};

using AT = sq::common::AtomType;
Ty unbounded(AT a) {
    Ty t;
    switch (a) {
        case AT::BOOLEAN: t.k = K::boolean; break;
        case AT::INT4: t.k = K::int4; break;
        case AT::INT8: t.k = K::int8; break;
        case AT::FLOAT4: t.k = K::float4; break;
        case AT::FLOAT8: t.k = K::float8; break;
        case AT::DECIMAL: t.k = K::decimal; break;
        case AT::CHARACTER: t.k = K::character; t.varying = true; break;
        case AT::OCTET: t.k = K::octet; t.varying = true; break;
        case AT::DATE: t.k = K::date; break;
        case AT::TIME_OF_DAY: t.k = K::time_of_day; break;
        case AT::TIME_POINT: t.k = K::time_point; break;
        case AT::TIME_OF_DAY_WITH_TIME_ZONE: t.k = K::time_of_day; t.off = true; break;
        case AT::TIME_POINT_WITH_TIME_ZONE: t.k = K::time_point; t.off = true; break;
        default: std::abort();
    }
    return t;
}
AT atom(Ty const& t) {
    switch (t.k) {
        case K::boolean: return AT::BOOLEAN;
        case K::int1: case K::int2: case K::int4: return AT::INT4;
        case K::int8: return AT::INT8;
        case K::float4: return AT::FLOAT4;
        case K::float8: return AT::FLOAT8;
        case K::decimal: return AT::DECIMAL;
        case K::character: return AT::CHARACTER;
        case K::octet: return AT::OCTET;
        case K::date: return AT::DATE;
        case K::time_of_day: return t.off ? AT::TIME_OF_DAY_WITH_TIME_ZONE : AT::TIME_OF_DAY;
        case K::time_point: return t.off ? AT::TIME_POINT_WITH_TIME_ZONE : AT::TIME_POINT;
        default: std::abort();
    }
}
constexpr AT ATOMS[] = {AT::INT8, AT::INT4, AT::BOOLEAN, AT::FLOAT4, AT::FLOAT8, AT::DECIMAL, AT::CHARACTER, AT::OCTET, AT::DATE, AT::TIME_OF_DAY,
    AT::TIME_POINT, AT::TIME_OF_DAY_WITH_TIME_ZONE, AT::TIME_POINT_WITH_TIME_ZONE};
V tidy(Ty const& t, V v) {  // what may travel in a message
    if (t.k == K::character) for (auto& c : v.s) if (static_cast<unsigned char>(c) >= 0x80) c = static_cast<char>('a' + (static_cast<unsigned char>(c) % 26));
    return v;
}
constexpr i64 DAY = 86400000000000LL;

struct World {
    Src& s;
    int zone;
    bool stores;
    Engine e;
    sv::session_store none{};
    std::unique_ptr<api::impl::service> svc;
    std::vector<Session> sessions{};
    std::deque<TxM> txs{};
    std::deque<StM> sts{};
    Tab t;
    std::set<std::string> tables{};
    struct Pending { std::shared_ptr<Seen> seen; std::weak_ptr<sv::response> weak; std::size_t tx; bool dispose; u64 marker; };
    std::list<Pending> pending{};
    std::size_t base_count = 0; decltype(fake::st().open_tx) base_open = 0;
    int errors_seen = 0, queries = 0, commits = 0;
    // a look at what a request left behind (P32)
    std::function<void(std::optional<std::size_t>)> after{};
    std::function<void(std::optional<std::size_t>, bool, Answer const&, Q, std::string const&, bool)> executed{};

    static int gen_zone(Src& s) { return s.flip() ? 0 : static_cast<int>(s.pick({540, -480, 330, -1, 1439, -1439})); }
    explicit World(Src& src)
        : s(src), zone(gen_zone(src)), stores(src.flip()), e([&](configuration& c) {
              c.zone_offset(zone);
              c.enable_session_store(stores);
              c.default_commit_response(src.flip() ? commit_response_kind::stored : commit_response_kind::accepted);
              c.max_result_set_writers(static_cast<std::size_t>(src.range(1, 4)));
              c.scan_default_parallel(static_cast<std::size_t>(src.range(1, 4)));
          }) {
        svc = std::make_unique<api::impl::service>(nullptr, e.db.get());
        auto n = s.range(1, 3);
        for (i64 i = 0; i < n; ++i) sessions.push_back({static_cast<std::size_t>(i + 1), i > 0 && s.chance(25)});
        t = gen_table(s, "T0", false, false);
        if (t.d.keys.empty()) { t.d.keys = {{0, true}}; t.d.cols[0].nullable = false; if (t.d.cols[0].t.k == K::octet || t.d.cols[0].t.k == K::character) t.d.cols[0].t = tree::ty(K::int4); }
        e.must(Engine::create_table(t.d));
        t.bound(e);
        tables = {"T0"};
        for (i64 i = s.range(0, 2); i > 0; --i) {
            TableDef d = t.d;
            d.name = cat("U", i);
            e.must(Engine::create_table(d));
            tables.insert(d.name);
        }
        base_count = e.db->transaction_count();
        base_open = fake::st().open_tx;
        for (auto& x : sessions) s.note("session ", x.id, x.alice ? " of alice" : "");
        s.note(t.describe(), stores ? " with session stores" : "", " zone ", zone);
    }
    ~World() { pending.clear(); }

    // ---- sending
    void pump() { e.db->task_scheduler()->wait_for_progress(0); }
    void looked(std::optional<std::size_t> sess) { if (after) after(sess); }
    std::shared_ptr<Seen> plan_seen() { return std::make_shared<Seen>(); }
    std::pair<std::shared_ptr<Seen>, std::weak_ptr<sv::response>> raw(std::size_t sess, std::string body, std::shared_ptr<Seen> o) {
        auto q = std::make_shared<Request>();
        q->body = std::move(body);
        q->sid = sessions[sess].id;
        q->store = sessions[sess].store.get();
        q->session_ = sessions[sess].info;
        q->variables_ = sessions[sess].vars;
        q->session_.id_ = sessions[sess].id;
        if (sessions[sess].alice) { q->session_.name_ = "alice"; q->session_.type_ = sv::user_type::standard; }
        auto p = std::make_shared<Response>(o);
        std::weak_ptr<sv::response> w = p;
        (*svc)(std::move(q), std::move(p));
        pump();
        looked(sess);
        return {o, w};
    }
    std::string pack(rq::Request& r) {
        r.set_service_message_version_major(jogasaki::service_message_version_major);
        r.set_service_message_version_minor(jogasaki::service_message_version_minor);
        std::string b;
        PBT_CHECK(r.SerializeToString(&b), "serialization of a request");
        return b;
    }
    void protocol(Seen const& o, std::string const& what) const {
        PBT_CHECK(!o.misuse, what, ": the channel was released twice, with open writers, or was not the one given");
        PBT_CHECK(o.finals() <= 1, what, ": ", o.finals(), " final answers");
        PBT_CHECK(o.heads.size() <= 1, what, ": ", o.heads.size(), " body heads");
        if (o.ch) {
            PBT_CHECK(!o.ch->foreign, what, ": a writer was released twice");
            PBT_CHECK(o.ch->most <= o.ch->limit, what, ": ", o.ch->most, " writers at a time, with a limit of ", o.ch->limit);
        }
        if (o.finals() == 1) {
            PBT_CHECK(o.order.back() == "body" || o.order.back() == "error", what, ": ", o.order.back(), " after the final answer");
            PBT_CHECK(!o.ch || o.released, what, ": the channel was not released");
        }
        if (!o.heads.empty()) PBT_CHECK(o.ch != nullptr, what, ": a body head without a channel");
    }
    // the answer, of the kind the request asks for
    Answer judge(std::shared_ptr<Seen> const& o, std::weak_ptr<sv::response> const& w, rs::Response::ResponseCase kind, std::string const& what) {
        protocol(*o, what);
        PBT_EQ(o->finals(), 1U, what, ": number of final answers");
        PBT_CHECK(w.expired(), what, ": the response is kept after the answer");
        Answer a;
        a.seen = o;
        if (!o->errors.empty()) {
            a.diag = true;
            a.dcode = o->errors[0].code();
            return a;
        }
        PBT_CHECK(a.r.ParseFromString(o->bodies[0]), what, ": the answer cannot be parsed");
        PBT_EQ(static_cast<int>(a.r.response_case()), static_cast<int>(kind), what, ": kind of the answer");
        auto take = [&](auto const& m) { if (m.has_error()) a.err = m.error(); };
        switch (kind) {
            case rs::Response::kResultOnly: take(a.r.result_only()); PBT_CHECK(a.err || a.r.result_only().has_success(), what, ": neither success nor error"); break;
            case rs::Response::kBegin: take(a.r.begin()); PBT_CHECK(a.err || a.r.begin().has_success(), what, ": neither success nor error"); break;
            case rs::Response::kPrepare: take(a.r.prepare()); PBT_CHECK(a.err || a.r.prepare().has_prepared_statement_handle(), what, ": neither success nor error"); break;
            case rs::Response::kExecuteResult: take(a.r.execute_result()); PBT_CHECK(a.err || a.r.execute_result().has_success(), what, ": neither success nor error"); break;
            case rs::Response::kExplain: take(a.r.explain()); PBT_CHECK(a.err || a.r.explain().has_success(), what, ": neither success nor error"); break;
            case rs::Response::kDescribeTable: take(a.r.describe_table()); PBT_CHECK(a.err || a.r.describe_table().has_success(), what, ": neither success nor error"); break;
            case rs::Response::kListTables: take(a.r.list_tables()); break;
            case rs::Response::kGetSearchPath: take(a.r.get_search_path()); break;
            case rs::Response::kGetErrorInfo: if (a.r.get_error_info().result_case() == rs::GetErrorInfo::kError) a.err = a.r.get_error_info().error(); break;
            case rs::Response::kExtractStatementInfo: take(a.r.extract_statement_info()); break;
            case rs::Response::kGetLargeObjectData: take(a.r.get_large_object_data()); break;
            case rs::Response::kGetTransactionStatus: take(a.r.get_transaction_status()); break;
            default: break;
        }
        if (a.err) {
            ++errors_seen;
            PBT_CHECK(a.err->code() != ECode::CODE_UNSPECIFIED, what, ": an error without a code");
            PBT_CHECK(!a.err->detail().empty(), what, ": an error without a message");
        }
        return a;
    }
    Answer send(std::size_t sess, rq::Request& r, rs::Response::ResponseCase kind, std::string const& what, std::shared_ptr<Seen> o = std::make_shared<Seen>()) {
        auto [q, w] = raw(sess, pack(r), std::move(o));
        return judge(q, w, kind, what);
    }
    void expect(Answer const& a, std::set<error_code> const& codes, std::string const& what) {
        PBT_CHECK(!a.ok(), what, " succeeded");
        for (auto c : codes) if (is(a, c)) return;
        PBT_CHECK(false, what, ": ", a.what(), " in place of ", *codes.begin());
    }
    static bool is(Answer const& a, error_code c) {
        switch (c) {
            case error_code::permission_error: return a.diag && a.dcode == Code::PERMISSION_ERROR;
            case error_code::request_canceled: return a.diag && a.dcode == Code::OPERATION_CANCELED;
            default: return a.err && a.err->code() == api::impl::map_error(c);
        }
    }

    // ---- handles as a client of a session may know them
    std::size_t someone() { return s.idx(sessions.size()); }
    bool visible(std::size_t owner, std::size_t sess) const { return !stores || owner == sess; }
    // an index into txs, or none for a handle nobody has
    std::optional<std::size_t> some_tx(std::size_t& sess) {
        if (txs.empty() || s.chance(4)) return std::nullopt;
        std::size_t i = s.idx(txs.size());
        if (!s.chance(20)) {  // an active one of this session, if there is one
            for (std::size_t k = 0; k < txs.size(); ++k) {
                auto j = (i + k) % txs.size();
                if (!txs[j].gone && txs[j].st == TxM::active) { i = j; break; }
            }
        }
        if (!s.chance(6)) sess = txs[i].sess;
        return i;
    }
    bool alive_tx(std::optional<std::size_t> i, std::size_t sess) const { return i && !txs[*i].gone && visible(txs[*i].sess, sess); }
    void put_tx(sq::common::Transaction* m, std::optional<std::size_t> i) { m->set_handle(i ? txs[*i].handle : 987654321); }
    std::optional<std::size_t> some_st(std::size_t sess) {
        if (sts.empty() || s.chance(4)) return std::nullopt;
        auto i = s.idx(sts.size());
        if (!s.chance(15))
            for (std::size_t k = 0; k < sts.size(); ++k) {
                auto j = (i + k) % sts.size();
                if (!sts[j].gone && visible(sts[j].sess, sess)) return j;
            }
        return i;
    }
    bool alive_st(std::optional<std::size_t> i, std::size_t sess) const { return i && !sts[*i].gone && visible(sts[*i].sess, sess); }
    u64 st_handle(std::optional<std::size_t> i) const {
        // the address of a discarded statement may be in use again
        if (!i) return 16;
        if (sts[*i].gone) for (auto& x : sts) if (!x.gone && x.handle == sts[*i].handle) return 16;
        return sts[*i].handle;
    }
    std::optional<std::size_t> writer() const {
        for (std::size_t i = 0; i < txs.size(); ++i) if (!txs[i].gone && txs[i].wrote && (txs[i].st == TxM::active)) return i;
        return std::nullopt;
    }
    void drop_changes(TxM& x) {
        if (x.wrote && x.st == TxM::active) t.rows = x.before;
    }
    void aborted(TxM& x, std::optional<error_code> c) {
        if (x.st != TxM::active) return;
        drop_changes(x);
        x.st = TxM::aborted;
        x.err = c;
    }
    rs::TransactionStatus status_of(std::size_t i) {
        rq::Request r;
        put_tx(r.mutable_get_transaction_status()->mutable_transaction_handle(), i);
        auto a = send(txs[i].sess, r, rs::Response::kGetTransactionStatus, "GetTransactionStatus");
        PBT_CHECK(a.ok(), "GetTransactionStatus: ", a.what());
        return a.r.get_transaction_status().success().status();
    }
    // whether a request that need not have ended the transaction did so
    void sync(std::optional<std::size_t> i, std::optional<error_code> c = std::nullopt) {
        if (!i || txs[*i].gone || txs[*i].st != TxM::active) return;
        auto st = status_of(*i);
        if (st == rs::RUNNING) return;
        PBT_EQ(static_cast<int>(st), static_cast<int>(rs::ABORTED), "status of a transaction after a failed request");
        aborted(txs[*i], c);
        txs[*i].known = false;
    }

    // ---- statements
    static Stmt declared(std::vector<Ph> phs, Stmt st) {
        st.check = [phs](yugawara::variable::provider const* v) {
            auto* pv = static_cast<yugawara::variable::configurable_provider const*>(v);
            for (auto& h : phs) {
                auto d = pv ? pv->find(h.name) : nullptr;
                if (!d) return static_cast<int>(mizugaki::analyzer::sql_analyzer_code::variable_not_found);
                if (d->shared_type()->kind() != tk(h.ty)->kind()) return static_cast<int>(mizugaki::analyzer::sql_analyzer_code::inconsistent_type);
            }
            return -1;
        };
        return st;
    }
    Stmt vars_stmt(std::vector<Ph> phs) {
        return e.plan([phs](Plan& p) {
            auto* pv = static_cast<yugawara::variable::configurable_provider const*>(mizugaki::front_end::variables());
            auto& q = p.proc();
            auto one = p.var(tree::ty(K::int4));
            auto x = p.lit([] { V v; v.i = 1; return v; }(), tree::ty(K::int4));
            auto& vs = q.op<tr::values>(std::vector<variable>{one}, std::vector<tr::values::row>{tr::values::row{std::vector<Expr>{x}}});
            std::vector<tr::project::column> cs;
            std::vector<tr::emit::column> es;
            for (auto& h : phs) {
                auto d = pv->find(h.name);
                PBT_CHECK(d != nullptr, "placeholder ", h.name, " is not known to the analyzer");
                auto v = yugawara::binding::factory{}(d);
                p.info.bind(v, d->shared_type());
                p.info.variables().bind(v, yugawara::analyzer::variable_resolution_kind::external);
                auto o = p.var(d->shared_type());
                auto ex = std::make_shared<variable_reference>(v);
                p.info.bind(*ex, d->shared_type());
                cs.emplace_back(o, ex);
                es.emplace_back(o, "c_" + h.name);
            }
            auto& pr = q.op<tr::project>(std::move(cs));
            auto& em = q.op<tr::emit>(es);
            vs.output() >> pr.input();
            pr.output() >> em.input();
        });
    }
    Stmt insert_vars_stmt(std::vector<Ph> phs) {
        auto tb = e.table("T0");
        auto ix = e.index("T0");
        return Engine::stmt([=](yugawara::compiler_options&) {
            auto* pv = static_cast<yugawara::variable::configurable_provider const*>(mizugaki::front_end::variables());
            yugawara::compiled_info info;
            Engine::bind_columns(info, *tb);
            std::vector<variable> cs;
            std::vector<Expr> es;
            for (std::size_t c = 0; c < phs.size(); ++c) {
                cs.push_back(Engine::col(*tb, c));
                auto d = pv->find(phs[c].name);
                PBT_CHECK(d != nullptr, "placeholder ", phs[c].name, " is not known to the analyzer");
                auto v = yugawara::binding::factory{}(d);
                info.bind(v, d->shared_type());
                info.variables().bind(v, yugawara::analyzer::variable_resolution_kind::external);
                auto ex = std::make_shared<variable_reference>(v);
                info.bind(*ex, d->shared_type());
                es.push_back(ex);
            }
            std::vector<ts::write::tuple> tuples;
            tuples.emplace_back(std::move(es));
            return Engine::done(std::make_unique<ts::write>(Engine::rel(ix), std::move(cs), std::move(tuples), tr::write_kind::insert), info);
        });
    }
    struct Text { Q q; std::string text; std::vector<Ph> phs{}; std::vector<Engine::Cell> cells{}; };
    static AT near(Ty const& c) {
        auto a = atom(c);
        return a;
    }
    Text text(bool params) {
        Text x;
        switch (s.draw(params ? 9 : 7)) {
            case 0: case 1: x.q = Q::select; x.text = e.text(e.select_all("T0")); break;
            case 2: x.q = Q::bad_text; x.text = "SELEC"; break;
            case 3: {
                x.q = Q::bad_analysis;
                Stmt b;
                b.k = Stmt::kind::analyzer_error;
                b.code = static_cast<int>(s.range(1, 20));
                x.text = e.text(std::move(b));
                break;
            }
            case 4: case 5: case 6: case 7: {
                x.q = Q::insert;
                std::vector<std::size_t> cs;
                for (std::size_t c = 0; c < t.visible(); ++c) {
                    cs.push_back(c);
                    x.cells.push_back(cell(c, t.cols[c].t));
                }
                x.text = e.text(e.insert("T0", cs, {x.cells}));
                break;
            }
            case 8: {
                x.q = Q::vars;
                auto n = s.range(1, 5);
                for (i64 i = 0; i < n; ++i) { auto a = ATOMS[s.idx(std::size(ATOMS))]; x.phs.push_back({cat("p", i), a, unbounded(a)}); }
                x.text = e.text(declared(x.phs, vars_stmt(x.phs)));
                break;
            }
            default: {
                x.q = Q::insert_vars;
                for (std::size_t c = 0; c < t.visible(); ++c) {
                    auto a = near(t.cols[c].t);
                    x.phs.push_back({cat("p", c), a, unbounded(a)});
                }
                x.text = e.text(declared(x.phs, insert_vars_stmt(x.phs)));
                break;
            }
        }
        return x;
    }
    Engine::Cell cell(std::size_t c, Ty const& ty) {
        Engine::Cell x{tidy(t.cols[c].t, gen_cell(s, t, c)), ty};
        if (s.chance(8)) x.v.null = true;
        x.v.k = ty.k;
        if (!x.v.null) x.v = stored(t.cols[c].t, x.v);
        return x;
    }
    char const* name(Q q) const {
        switch (q) {
            case Q::select: return "select";
            case Q::vars: return "select of variables";
            case Q::insert: return "insert";
            case Q::insert_vars: return "insert of variables";
            case Q::create: return "create";
            case Q::bad_text: return "bad text";
            default: return "bad analysis";
        }
    }
    // what an insert does; the codes of its failures
    std::set<error_code> insert(std::vector<Engine::Cell> const& cells, Row_& row) {
        std::set<error_code> errs;
        row.assign(t.cols.size(), V{});
        for (std::size_t c = 0; c < cells.size(); ++c) {
            auto const& col = t.cols[c];
            V v = cells[c].v;
            if (v.null) {
                if (!col.nullable) errs.insert(error_code::not_null_constraint_violation_exception);
            } else {
                if ((col.t.k == K::character || col.t.k == K::octet) && col.t.len && v.s.size() > *col.t.len) errs.insert(error_code::value_too_long_exception);
            }
            v.k = col.t.k;
            row[c] = v;
        }
        if (!errs.empty()) return errs;
        for (std::size_t c = 0; c < row.size(); ++c) row[c] = stored(t.cols[c].t, row[c]);
        if (t.rows.count(t.key(row))) errs.insert(error_code::unique_constraint_violation_exception);
        return errs;
    }

    // ---- result sets
    V decode(std::string_view& in, Ty const& ty) {
        takatori::util::const_buffer_view b{in.data(), in.size()};
        auto p = b.cbegin();
        V v;
        v.k = ty.k;
        switch (auto et = ser::peek_type(p, b.cend()); et) {
            case ser::entry_type::null: ser::read_null(p, b.cend()); v.null = true; break;
            default:
                switch (ty.k) {
                    case K::boolean: case K::int1: case K::int2: case K::int4: case K::int8: v.i = ser::read_int(p, b.cend()); break;
                    case K::float4: v.f = ser::read_float4(p, b.cend()); break;
                    case K::float8: v.d = ser::read_float8(p, b.cend()); break;
                    case K::decimal: v.t = ser::read_decimal(p, b.cend()); break;
                    case K::character: v.s = ser::read_character(p, b.cend()); break;
                    case K::octet: v.s = ser::read_octet(p, b.cend()); break;
                    case K::date: v.i = ser::read_date(p, b.cend()).days_since_epoch(); break;
                    case K::time_of_day:
                        if (ty.off) {
                            auto [x, o] = ser::read_time_of_day_with_offset(p, b.cend());
                            PBT_EQ(o, zone, "time zone of a result");
                            v.i = ((static_cast<i64>(x.time_since_epoch().count()) - o * 60000000000LL) % DAY + DAY) % DAY;
                        } else v.i = static_cast<i64>(ser::read_time_of_day(p, b.cend()).time_since_epoch().count());
                        break;
                    case K::time_point:
                        if (ty.off) {
                            auto [x, o] = ser::read_time_point_with_offset(p, b.cend());
                            PBT_EQ(o, zone, "time zone of a result");
                            v.i = x.seconds_since_epoch().count() - o * 60;
                            v.n = static_cast<std::int32_t>(x.subsecond().count());
                        } else {
                            auto x = ser::read_time_point(p, b.cend());
                            v.i = x.seconds_since_epoch().count();
                            v.n = static_cast<std::int32_t>(x.subsecond().count());
                        }
                        break;
                    default: std::abort();
                }
        }
        in.remove_prefix(static_cast<std::size_t>(p - b.cbegin()));
        return v;
    }
    static std::string canon(V const& v) {
        if (v.null) return "null";
        if (v.k == K::decimal) {
            auto c = static_cast<unsigned __int128>(v.t.coefficient_high()) << 64 | v.t.coefficient_low();
            auto ex = v.t.exponent();
            if (c == 0) return "0";
            while (c % 10 == 0) { c /= 10; ++ex; }
            return cat(v.t.sign() < 0 ? "-" : "", static_cast<u64>(c >> 64), ":", static_cast<u64>(c), "e", ex);
        }
        if (v.k == K::float4) { std::uint32_t b; float f = v.f; std::memcpy(&b, &f, 4); return std::isnan(f) ? "nan" : cat("f", b); }
        if (v.k == K::float8) { u64 b; std::memcpy(&b, &v.d, 8); return std::isnan(v.d) ? "nan" : cat("d", b); }
        return cat(v);
    }
    static std::string canon(std::vector<V> const& r) {
        std::string o;
        for (auto& v : r) o += canon(v) + " | ";
        return o;
    }
    void result(Answer const& a, std::vector<std::string> const& names, std::vector<Ty> const& types, std::vector<std::vector<V>> const& want, std::string const& what) {
        ++queries;
        auto& o = *a.seen;
        PBT_EQ(o.heads.size(), 1U, what, ": body heads");
        rs::Response h;
        PBT_CHECK(h.ParseFromString(o.heads[0]) && h.has_execute_query(), what, ": the body head");
        PBT_EQ(h.execute_query().name(), o.channel, what, ": name of the channel");
        auto& m = h.execute_query().record_meta();
        PBT_EQ(static_cast<std::size_t>(m.columns_size()), types.size(), what, ": columns in the metadata");
        for (std::size_t c = 0; c < types.size(); ++c) column(m.columns(static_cast<int>(c)), names[c], types[c], what);
        std::multiset<std::string> w, g;
        for (auto& r : want) w.insert(canon(r));
        for (auto& x : o.ch->all) {
            PBT_EQ(x->committed, x->data.size(), what, ": data written and not committed");
            std::string_view in{x->data};
            while (!in.empty()) {
                takatori::util::const_buffer_view b{in.data(), in.size()};
                auto p = b.cbegin();
                if (ser::peek_type(p, b.cend()) == ser::entry_type::end_of_contents) {
                    PBT_EQ(in.size(), 1U, what, ": data after the end of the contents");
                    break;
                }
                auto n = ser::read_row_begin(p, b.cend());
                PBT_EQ(n, types.size(), what, ": columns of a row");
                in.remove_prefix(static_cast<std::size_t>(p - b.cbegin()));
                std::vector<V> row;
                for (auto& ty : types) row.push_back(decode(in, ty));
                g.insert(canon(row));
            }
        }
        for (auto& r : w) PBT_EQ(g.count(r), w.count(r), what, ": number of rows ", r);
        for (auto& r : g) PBT_EQ(g.count(r), w.count(r), what, ": number of rows ", r);
        s.label("result set");
    }
    void column(sq::common::Column const& c, std::string const& n, Ty const& ty, std::string const& what) {
        PBT_EQ(c.name(), n, what, ": name of a column");
        PBT_EQ(static_cast<int>(c.atom_type()), static_cast<int>(atom(ty)), what, ": type of column ", n);
        if (ty.k == K::character || ty.k == K::octet) {
            PBT_EQ(c.varying(), ty.varying, what, ": varying of column ", n);
            if (ty.len) PBT_EQ(c.length(), *ty.len, what, ": length of column ", n);
            else PBT_CHECK(c.has_arbitrary_length(), what, ": length of column ", n);
        }
        if (ty.k == K::decimal) {
            if (ty.prec) PBT_EQ(c.precision(), *ty.prec, what, ": precision of column ", n);
            else PBT_CHECK(c.has_arbitrary_precision() || c.precision() == 38, what, ": precision of column ", n);
            if (ty.scale) PBT_EQ(c.scale(), *ty.scale, what, ": scale of column ", n);
        }
    }
    std::vector<std::vector<V>> table_rows() const {
        std::vector<std::vector<V>> r;
        for (auto& [k, row] : t.rows) r.push_back(row);
        return r;
    }
    std::vector<std::string> table_names() const { std::vector<std::string> r; for (auto& c : t.d.cols) r.push_back(c.name); return r; }
    std::vector<Ty> table_types() const { std::vector<Ty> r; for (auto& c : t.d.cols) r.push_back(c.t); return r; }

    // ---- parameters
    static void put_decimal(Src& s, sq::common::Decimal* d, triple const& x) {
        auto c = static_cast<unsigned __int128>(x.coefficient_high()) << 64 | x.coefficient_low();
        std::string b;
        bool neg = x.sign() < 0;
        // two's complement, big endian, 17 bytes, then without the leading copies of the sign
        std::string full;
        unsigned __int128 m = neg ? ~c + 1 : c;
        full.push_back(neg && c != 0 ? '\xff' : '\0');
        for (int i = 15; i >= 0; --i) full.push_back(static_cast<char>(static_cast<unsigned char>(m >> (8 * i))));
        std::size_t from = 0;
        while (from + 1 < full.size() && static_cast<unsigned char>(full[from]) == (neg && c != 0 ? 0xff : 0) &&
               (static_cast<unsigned char>(full[from + 1]) >> 7) == (neg && c != 0 ? 1 : 0)) ++from;
        from -= std::min<std::size_t>(from, static_cast<std::size_t>(s.range(0, 2)));
        d->set_unscaled_value(full.substr(from));
        d->set_exponent(x.exponent());
    }
    struct Given { bool present = true, null = false, wrong = false, malformed = false; V v{}; };
    Given param(Ph const& h, rq::Parameter* m, std::optional<V> fixed) {
        Given g;
        if (s.chance(6)) { g.null = true; m->set_name(h.name); g.v.null = true; g.v.k = h.ty.k; if (fixed) { g.v.k = fixed->k; } return g; }
        m->set_name(h.name);
        if (s.chance(3)) {  // of another type
            g.wrong = true;
            if (h.ty.k == K::character) m->set_octet_value("x");
            else m->set_character_value("x");
            return g;
        }
        V v = fixed ? *fixed : tidy(h.ty, gen_value(s, h.ty, 40));
        if (v.null) { g.null = true; g.v = v; return g; }
        if (h.ty.k == K::time_point && h.ty.off && (v.i > 1LL << 40 || v.i < -(1LL << 40))) v.i %= 1LL << 40;
        if (h.ty.k == K::int8 && s.chance(40) && (!fixed || (v.i <= INT32_MAX && v.i >= INT32_MIN))) {
            v.i = static_cast<std::int32_t>(v.i);
            m->set_int4_value(static_cast<std::int32_t>(v.i));
            g.v = v;
            return g;
        }
        bool off = h.ty.off != s.chance(15);
        int min = off ? static_cast<int>(s.range(0, 2000)) - 1000 : 0;
        switch (h.ty.k) {
            case K::boolean: m->set_boolean_value(v.i != 0); break;
            case K::int4: m->set_int4_value(static_cast<std::int32_t>(v.i)); break;
            case K::int8: m->set_int8_value(v.i); break;
            case K::float4: m->set_float4_value(v.f); break;
            case K::float8: m->set_float8_value(v.d); break;
            case K::decimal:
                if (s.chance(3)) {
                    g.malformed = true;
                    m->mutable_decimal_value()->set_unscaled_value(s.pick({std::string(18, '\x11'), std::string(17, '\x01'), std::string("\0\1", 2) + std::string(16, '\0'), "\xff" + std::string(16, '\0')}));
                } else put_decimal(s, m->mutable_decimal_value(), v.t);
                break;
            case K::character: m->set_character_value(v.s); break;
            case K::octet: m->set_octet_value(v.s); break;
            case K::date: m->set_date_value(v.i); break;
            case K::time_of_day:
                if (off) {
                    m->mutable_time_of_day_with_time_zone_value()->set_offset_nanoseconds(static_cast<u64>(((v.i + min * 60000000000LL) % DAY + DAY) % DAY));
                    m->mutable_time_of_day_with_time_zone_value()->set_time_zone_offset(min);
                } else m->set_time_of_day_value(static_cast<u64>(v.i));
                break;
            case K::time_point:
                if (v.i > 1LL << 40 || v.i < -(1LL << 40)) off = false;
                if (off) {
                    m->mutable_time_point_with_time_zone_value()->set_offset_seconds(v.i + min * 60);
                    m->mutable_time_point_with_time_zone_value()->set_nano_adjustment(static_cast<u64>(v.n));
                    m->mutable_time_point_with_time_zone_value()->set_time_zone_offset(min);
                } else {
                    m->mutable_time_point_value()->set_offset_seconds(v.i);
                    m->mutable_time_point_value()->set_nano_adjustment(static_cast<u64>(v.n));
                }
                break;
            default: std::abort();
        }
        g.v = v;
        return g;
    }

    // ---- requests
    void begin() {
        auto sess = someone();
        rq::Request r;
        auto* b = r.mutable_begin();
        bool bad = false, ro = false, lg = false;
        std::string label;
        if (s.chance(70)) {
            auto* o = b->mutable_option();
            auto k = s.draw(9);
            if (k < 5) o->set_type(rq::SHORT);
            else if (k < 7) {
                lg = true;
                o->set_type(rq::LONG);
                auto& n = *o->add_write_preserves();
                bad = s.chance(20);
                n.set_table_name(bad ? "NOTHING" : "T0");
            } else { o->set_type(rq::READ_ONLY); ro = true; if (s.flip()) o->set_scan_parallel(static_cast<std::int32_t>(s.range(1, 4))); }
            if (s.flip()) { label = "label"; o->set_label(label); }
        }
        bool fault = s.chance(5);
        fake::st().delivered.clear();
        if (fault) fake::st().faults.push_back({"transaction_begin", 0, sharksfin::StatusCode::ERR_UNKNOWN});
        auto a = send(sess, r, rs::Response::kBegin, "Begin");
        bool hit = !fake::st().delivered.empty();
        fake::st().faults.clear();
        fake::st().delivered.clear();
        s.note("begin of session ", sessions[sess].id, ro ? " read only" : lg ? " long" : "", bad ? " of an unknown table" : "", " -> ", a.what());
        if (bad || hit) {
            PBT_CHECK(!a.ok(), "Begin succeeded", hit ? " though the engine failed" : " with an unknown table");
            return;
        }
        PBT_CHECK(a.ok(), "Begin: ", a.what());
        auto h = a.r.begin().success().transaction_handle().handle();
        PBT_CHECK(h != 0, "Begin gave no handle");
        for (auto& x : txs) PBT_CHECK(x.handle != h, "Begin gave a handle a second time");
        PBT_CHECK(!a.r.begin().success().transaction_id().id().empty(), "Begin gave no transaction id");
        txs.push_back({h, sess});
        txs.back().id = a.r.begin().success().transaction_id().id();
        txs.back().label = label;
        txs.back().readonly = ro;
        txs.back().longtx = lg;
        PBT_EQ(static_cast<int>(status_of(txs.size() - 1)), static_cast<int>(rs::RUNNING), "status of a new transaction");
    }
    void prepare() {
        auto sess = someone();
        rq::Request r;
        auto* p = r.mutable_prepare();
        if (s.chance(3)) {
            auto a = send(sess, r, rs::Response::kPrepare, "Prepare without a text");
            return expect(a, {error_code::sql_execution_exception}, "Prepare without a text");
        }
        auto x = text(true);
        p->set_sql(x.text);
        bool undefined = false;
        for (auto& h : x.phs) {
            auto* m = p->add_placeholders();
            m->set_name(h.name);
            m->set_atom_type(h.t);
            if (s.chance(2)) { m->set_atom_type(AT::BIT); undefined = true; }
        }
        auto n = count_statements(sess);
        auto a = send(sess, r, rs::Response::kPrepare, "Prepare");
        s.note("prepare ", name(x.q), " of session ", sessions[sess].id, " -> ", a.what());
        if (undefined) expect(a, {error_code::sql_execution_exception}, "Prepare with a placeholder of no type");
        else if (x.q == Q::bad_text) expect(a, {error_code::syntax_exception}, "Prepare of a malformed text");
        else if (x.q == Q::bad_analysis) PBT_CHECK(!a.ok(), "Prepare of a wrong statement succeeded");
        else {
            PBT_CHECK(a.ok(), "Prepare: ", a.what());
            auto& h = a.r.prepare().prepared_statement_handle();
            PBT_CHECK(h.handle() != 0, "Prepare gave no handle");
            PBT_EQ(h.has_result_records(), x.q == Q::select || x.q == Q::vars, "has_result_records of ", name(x.q));
            for (auto& y : sts) PBT_CHECK(y.gone || y.handle != h.handle(), "Prepare gave a handle that is in use");
            sts.push_back({h.handle(), sess, x.q, x.phs, x.cells, x.text});
        }
        if (!a.ok()) PBT_EQ(count_statements(sess), n, "statements held after a failed Prepare");
    }
    std::size_t count_statements(std::size_t sess) const {
        if (!stores) return 0;
        auto st = e.db->find_statement_store(sessions[sess].id);
        return st ? st->size() : 0;
    }
    bool alice(std::size_t sess) const { return sessions[sess].alice; }

    // execution of a statement: what has to come of it
    void run(std::size_t sess, std::optional<std::size_t> ti, bool query, Answer const& a, Q q, std::vector<Engine::Cell> const& cells, std::vector<Ph> const& phs, std::vector<Given> const& given, bool cancel, std::string const& what, std::string const& text) {
        bool alive = alive_tx(ti, sess);
        auto* x = alive ? &txs[*ti] : nullptr;
        bool given_up = cancel || a.seen->fail_at >= 0 || a.seen->refuse_channel || a.seen->refuse_writer;
        if (executed) executed(alive ? ti : std::nullopt, query, a, q, text, given_up);
        auto fails = [&](std::set<error_code> c, bool ends) {
            if (a.diag && a.dcode == Code::OPERATION_CANCELED && cancel) { sync(ti, error_code::request_canceled); return; }
            expect(a, c, what);
            PBT_CHECK(a.seen->heads.empty() || a.seen->released, what, ": the channel");
            if (!alive) return;
            if (x->st != TxM::active) { x->known = false; return; }
            if (!ends) { sync(ti); return; }
            for (auto k : c) if (is(a, k)) { aborted(*x, k); break; }
            auto st = status_of(*ti);
            PBT_CHECK(st == rs::ABORTED, what, ": the transaction has status ", st, " after ", a.what());
        };
        if (q == Q::bad_text) return fails({error_code::syntax_exception}, true);
        if (q == Q::bad_analysis) {
            PBT_CHECK(!a.ok(), what, " succeeded");
            if (alive && x->st != TxM::active) x->known = false;
            if (alive && x->st == TxM::active) { sync(ti); if (x->st == TxM::active) PBT_CHECK(false, what, ": the transaction goes on"); }
            return;
        }
        for (auto& g : given) if (!g.present) return fails({error_code::unresolved_placeholder_exception, error_code::parameter_exception}, !query);
        for (auto& g : given) if (g.wrong) return fails({error_code::parameter_exception}, !query);
        if (query && (q == Q::insert || q == Q::insert_vars)) return fails({error_code::inconsistent_statement_exception}, false);
        if (!alive) {
            expect(a, {error_code::transaction_not_found_exception}, what);
            return;
        }
        if (a.seen->refuse_channel && query) return fails({error_code::sql_limit_reached_exception}, false);
        if (x->st != TxM::active) {
            if (alice(sess) && (q != Q::vars)) return fails({error_code::permission_error, error_code::inactive_transaction_exception}, false);
            return fails({error_code::inactive_transaction_exception}, false);
        }
        if (alice(sess) && q != Q::vars) {
            expect(a, {error_code::permission_error}, what);
            aborted(*x, error_code::permission_error);
            x->known = false;
            PBT_EQ(static_cast<int>(status_of(*ti)), static_cast<int>(rs::ABORTED), what, ": status after a refusal");
            return;
        }
        if (cancel && !a.ok()) {
            PBT_CHECK(a.diag && a.dcode == Code::OPERATION_CANCELED, what, ": ", a.what());
            s.label("canceled");
            auto st = status_of(*ti);
            PBT_CHECK(st == rs::ABORTED || st == rs::UNTRACKED, what, ": the transaction has status ", st, " after the cancel");
            drop_changes(*x);
            x->st = TxM::aborted;
            x->known = false;
            return;
        }
        if (q == Q::select || q == Q::vars) {
            if (!query) {  // the rows are of no use to the client
                if (!a.ok()) { sync(ti); x->known = false; }
                return;
            }
            bool none = q == Q::select && t.rows.empty();
            if (a.seen->refuse_writer && a.seen->ch && a.seen->ch->refused) { PBT_CHECK(!a.ok(), what, " succeeded without a writer"); sync(ti); return; }
            if (a.seen->fail_at == 0 && !none) { PBT_CHECK(!a.ok(), what, " succeeded though its rows could not be written"); sync(ti); if (x->st == TxM::active) PBT_CHECK(false, what, ": the transaction goes on"); return; }
            if (a.seen->fail_at > 0) for (auto& w : a.seen->ch ? a.seen->ch->all : std::vector<std::shared_ptr<Writer>>{}) if (w->failed) PBT_CHECK(!a.ok(), what, " succeeded though a row could not be written");
            if (a.seen->fail_at > 0 && !a.ok()) { sync(ti); return; }
            PBT_CHECK(a.ok(), what, ": ", a.what());
            if (a.seen->fail_at > 0) for (auto& w : a.seen->ch->all) if (static_cast<int>(w->data.size()) > a.seen->fail_at + 200) return;
            if (q == Q::select) result(a, table_names(), table_types(), table_rows(), what);
            else {
                std::vector<std::string> names;
                std::vector<Ty> types;
                std::vector<V> row;
                for (std::size_t i = 0; i < phs.size(); ++i) {
                    names.push_back("c_" + phs[i].name);
                    types.push_back(phs[i].ty);
                    row.push_back(given[i].v);
                    row.back().k = phs[i].ty.k;
                }
                result(a, names, types, {row}, what);
            }
            return;
        }
        auto cs = cells;
        if (q == Q::insert_vars) {
            cs.clear();
            for (auto& g : given) cs.push_back({g.v, Ty{}});
        }
        Row_ row;
        if (x->readonly) {
            PBT_CHECK(!a.ok(), what, " succeeded in a read only transaction");
            sync(ti);
            return;
        }
        auto errs = insert(cs, row);
        if (!errs.empty()) { s.label("failed insert"); return fails(errs, true); }
        PBT_CHECK(a.ok(), what, ": ", a.what());
        if (!x->wrote) { x->wrote = true; x->before = t.rows; }
        t.put(row);
        i64 n = 0;
        for (auto& c : a.r.execute_result().success().counters()) {
            if (c.type() == rs::ExecuteResult::INSERTED_ROWS) n = static_cast<i64>(c.value());
            else PBT_EQ(c.value(), 0, what, ": counter ", c.type());
        }
        PBT_EQ(n, 1, what, ": inserted rows");
    }
    std::shared_ptr<Seen> trouble(bool query) {
        auto o = std::make_shared<Seen>();
        if (query) {
            if (s.chance(4)) o->refuse_channel = true;
            else if (s.chance(4)) {
                o->fail_at = s.flip() ? 0 : static_cast<int>(s.range(1, 60));
                o->at_commit = s.flip();
            }
            else if (s.chance(3)) o->refuse_writer = true;
        }
        o->cancel = s.chance(4);
        return o;
    }
    // inserts go to the transaction that already has changes
    void settle(std::optional<std::size_t>& ti, std::size_t& sess, bool modifies) {
        if (!modifies) return;
        if (auto w = writer(); w && ti && *w != *ti && txs[*ti].st == TxM::active && !txs[*ti].gone) { ti = w; sess = txs[*w].sess; }
    }
    void execute_text() {
        auto sess = someone();
        auto ti = some_tx(sess);
        bool query = s.flip();
        auto x = text(false);
        settle(ti, sess, x.q == Q::insert);
        rq::Request r;
        auto fill = [&](auto* m) {
            put_tx(m->mutable_transaction_handle(), ti);
            m->set_sql(x.text);
        };
        if (query) fill(r.mutable_execute_query());
        else fill(r.mutable_execute_statement());
        auto o = trouble(query);
        auto what = cat(query ? "ExecuteQuery" : "ExecuteStatement", " of ", name(x.q));
        auto a = send(sess, r, query ? rs::Response::kResultOnly : rs::Response::kExecuteResult, what, o);
        s.note(what, " by session ", sessions[sess].id, " in ", ti ? cat("transaction ", *ti) : "no transaction", show(x.cells), " -> ", a.what());
        run(sess, ti, query, a, x.q, x.cells, {}, {}, o->cancel, what, x.text);
    }
    static std::string show(std::vector<Engine::Cell> const& c) {
        std::string o;
        for (auto& x : c) o += cat(" ", x.v);
        return o;
    }
    void execute_prepared() {
        auto sess = someone();
        auto ti = some_tx(sess);
        auto si = some_st(sess);
        bool query = si && !s.chance(10) ? sts[*si].q == Q::select || sts[*si].q == Q::vars : s.flip();
        settle(ti, sess, si && (sts[*si].q == Q::insert || sts[*si].q == Q::insert_vars));
        rq::Request r;
        std::vector<Given> given;
        std::string shown;
        auto fill = [&](auto* m) {
            put_tx(m->mutable_transaction_handle(), ti);
            m->mutable_prepared_statement_handle()->set_handle(st_handle(si));
            if (!si) return;
            auto& st = sts[*si];
            for (std::size_t i = 0; i < st.phs.size(); ++i) {
                if (s.chance(2)) { given.push_back({false}); continue; }
                std::optional<V> fixed;
                if (st.q == Q::insert_vars) {
                    auto ty = st.phs[i].ty;
                    fixed = cell(i, ty).v;
                    if ((ty.k == K::character || ty.k == K::octet) && t.cols[i].t.len && s.chance(4)) fixed->s = std::string(*t.cols[i].t.len + static_cast<std::size_t>(s.range(1, 3)), 'y');
                }
                given.push_back(param(st.phs[i], m->add_parameters(), fixed));
                shown += cat(" ", given.back().wrong ? "(wrong type)" : given.back().malformed ? "(malformed)" : cat(given.back().v));
            }
            if (s.chance(10)) { auto* p = m->add_parameters(); p->set_name("unused"); p->set_int4_value(1); }
        };
        if (query) fill(r.mutable_execute_prepared_query());
        else fill(r.mutable_execute_prepared_statement());
        auto o = trouble(query);
        auto what = cat(query ? "ExecutePreparedQuery" : "ExecutePreparedStatement", " of ", si ? name(sts[*si].q) : "nothing");
        auto a = send(sess, r, query ? rs::Response::kResultOnly : rs::Response::kExecuteResult, what, o);
        s.note(what, " by session ", sessions[sess].id, " in ", ti ? cat("transaction ", *ti) : "no transaction", " with", shown, " -> ", a.what());
        for (auto& g : given) if (g.malformed) {
            PBT_CHECK(!a.ok(), what, " succeeded with a malformed decimal");
            sync(ti);
            if (alive_tx(ti, sess)) txs[*ti].known = false;
            return;
        }
        if (!alive_st(si, sess)) {
            expect(a, {error_code::statement_not_found_exception}, what);
            if (alive_tx(ti, sess)) { sync(ti); txs[*ti].known = false; }
            return;
        }
        run(sess, ti, query, a, sts[*si].q, sts[*si].cells, sts[*si].phs, given, o->cancel, what, sts[*si].text);
    }
    void missing_parts() {
        auto sess = someone();
        auto ti = some_tx(sess);
        rq::Request r;
        bool put = s.flip();
        rs::Response::ResponseCase k = rs::Response::kResultOnly;
        auto with = [&](auto* m) { if (put) put_tx(m->mutable_transaction_handle(), ti); else if (s.flip()) m->mutable_transaction_handle(); };
        auto kind = s.draw(put ? 3 : 10);
        switch (kind) {
            case 0: with(r.mutable_execute_statement()); k = rs::Response::kExecuteResult; break;
            case 1: with(r.mutable_execute_query()); break;
            case 2: with(r.mutable_execute_prepared_statement()); k = rs::Response::kExecuteResult; break;
            case 3: with(r.mutable_execute_prepared_query()); break;
            case 4: with(r.mutable_commit()); break;
            case 5: with(r.mutable_rollback()); break;
            case 6: with(r.mutable_dispose_transaction()); break;
            case 7: with(r.mutable_get_error_info()); k = rs::Response::kGetErrorInfo; break;
            case 8: with(r.mutable_get_transaction_status()); k = rs::Response::kGetTransactionStatus; break;
            case 9: if (s.flip()) r.mutable_dispose_prepared_statement(); else { r.mutable_explain(); k = rs::Response::kExplain; } break;
            default: if (s.flip()) { r.mutable_explain_by_text(); k = rs::Response::kExplain; } else { r.mutable_extract_statement_info(); k = rs::Response::kExtractStatementInfo; } break;
        }
        auto a = send(sess, r, k, cat("a request with parts missing (", kind, ")"));
        s.note("request ", kind, " with parts missing of session ", sessions[sess].id, put && ti ? cat(" for transaction ", *ti) : std::string{}, " -> ", a.what());
        expect(a, {error_code::sql_execution_exception}, cat("a request with parts missing (", kind, ")"));
        if (put && alive_tx(ti, sess)) { sync(ti); txs[*ti].known = false; }
    }
    void finish_commit(std::size_t i, Answer const& a, bool dispose, std::string const& what) {
        auto& x = txs[i];
        PBT_CHECK(a.ok(), what, ": ", a.what());
        x.st = TxM::committed;
        ++commits;
        if (dispose) x.gone = true;
    }
    void commit() {
        auto sess = someone();
        auto ti = some_tx(sess);
        rq::Request r;
        auto* m = r.mutable_commit();
        put_tx(m->mutable_transaction_handle(), ti);
        auto nt = s.pick({rq::COMMIT_STATUS_UNSPECIFIED, rq::ACCEPTED, rq::AVAILABLE, rq::STORED, rq::PROPAGATED});
        bool dispose = s.flip();
        if (s.flip()) {
            m->mutable_option()->set_notification_type(nt);
            m->mutable_option()->set_auto_dispose(dispose);
        } else {
            m->set_notification_type(nt);
            m->set_auto_dispose(dispose);
        }
        bool stored = nt == rq::STORED || nt == rq::PROPAGATED || (nt == rq::COMMIT_STATUS_UNSPECIFIED && e.cfg->default_commit_response() == commit_response_kind::stored);
        bool late = s.chance(40);
        fake::st().auto_durable = !late;
        bool fault = s.chance(8);
        fake::st().delivered.clear();
        if (fault) fake::st().faults.push_back({"transaction_commit", 0, s.pick({sharksfin::StatusCode::ERR_ABORTED_RETRYABLE, sharksfin::StatusCode::ERR_INACTIVE_TRANSACTION})});
        auto before = fake::st().durable;
        auto [o, w] = raw(sess, pack(r), std::make_shared<Seen>());
        bool hit = !fake::st().delivered.empty();
        fake::st().faults.clear();
        fake::st().delivered.clear();
        fake::st().auto_durable = true;
        s.note("commit by session ", sessions[sess].id, " of ", ti ? cat("transaction ", *ti) : "no transaction", " status ", nt, dispose ? " auto dispose" : "", late ? " durable later" : "", hit ? " failing" : "");
        std::string what = "Commit";
        if (!alive_tx(ti, sess)) return expect(judge(o, w, rs::Response::kResultOnly, what), {error_code::transaction_not_found_exception}, "Commit of an unknown transaction");
        auto& x = txs[*ti];
        if (x.st != TxM::active) {
            auto a = judge(o, w, rs::Response::kResultOnly, what);
            expect(a, {error_code::inactive_transaction_exception}, "Commit of a finished transaction");
            x.known = false;
            return;
        }
        if (hit) {
            auto a = judge(o, w, rs::Response::kResultOnly, what);
            PBT_CHECK(!a.ok(), "Commit succeeded though the engine failed");
            x.ended = true;
            aborted(x, std::nullopt);
            x.known = false;
            PBT_EQ(static_cast<int>(status_of(*ti)), static_cast<int>(rs::ABORTED), "status after a failed Commit");
            return;
        }
        if (o->finals() == 0) {
            PBT_CHECK(stored && late && fake::st().marker > before, "Commit gets no answer");
            protocol(*o, what);
            x.st = TxM::committing;
            s.label("commit waiting");
            if (dispose) {
                x.gone = true;
                gone_check(*ti);
            } else {
                auto st = status_of(*ti);
                PBT_CHECK(st == rs::COMMITTING || st == rs::AVAILABLE, "status of a transaction whose Commit waits: ", st);
            }
            pending.push_back({o, w, *ti, dispose, fake::st().marker});
            return;
        }
        // with nothing in the log a commit has nothing to wait for only if its marker was durable already
        PBT_CHECK(!stored || fake::st().durable >= fake::st().marker, "Commit was answered before the transaction was durable");
        auto a = judge(o, w, rs::Response::kResultOnly, what);
        finish_commit(*ti, a, dispose, what);
        if (!dispose) {
            auto st = status_of(*ti);
            PBT_CHECK(st == rs::AVAILABLE || st == rs::STORED || (nt == rq::ACCEPTED && st == rs::COMMITTING), "status of a committed transaction: ", st);
            if (stored) PBT_CHECK(st == rs::STORED, "status of a durable transaction: ", st);
        } else gone_check(*ti);
    }
    void gone_check(std::size_t i) {
        rq::Request r;
        put_tx(r.mutable_get_transaction_status()->mutable_transaction_handle(), i);
        auto a = send(txs[i].sess, r, rs::Response::kGetTransactionStatus, "GetTransactionStatus of a disposed transaction");
        expect(a, {error_code::transaction_not_found_exception}, "GetTransactionStatus of a disposed transaction");
    }
    // the log reaches a later point
    void durable() {
        if (pending.empty()) return;
        auto to = static_cast<std::uint64_t>(s.range(static_cast<i64>(fake::st().durable), static_cast<i64>(fake::st().marker)));
        s.note("durable up to ", to);
        fake::st().durable = to;
        if (fake::st().durability) fake::st().durability(to);
        pump();
        looked(std::nullopt);
        for (auto it = pending.begin(); it != pending.end();) {
            if (it->marker > to) {
                PBT_EQ(it->seen->finals(), 0U, "answers to a Commit that is not durable");
                ++it;
                continue;
            }
            auto a = judge(it->seen, it->weak, rs::Response::kResultOnly, "Commit, later");
            auto i = it->tx;
            auto& x = txs[i];
            bool was = x.gone;
            finish_commit(i, a, it->dispose, "Commit, later");
            x.gone = was || it->dispose;
            it = pending.erase(it);
            if (!x.gone) PBT_EQ(static_cast<int>(status_of(i)), static_cast<int>(rs::STORED), "status after the log was saved");
            else gone_check(i);
        }
    }
    void rollback() {
        auto sess = someone();
        auto ti = some_tx(sess);
        rq::Request r;
        put_tx(r.mutable_rollback()->mutable_transaction_handle(), ti);
        auto a = send(sess, r, rs::Response::kResultOnly, "Rollback");
        s.note("rollback by session ", sessions[sess].id, " of ", ti ? cat("transaction ", *ti) : "no transaction", " -> ", a.what());
        if (!alive_tx(ti, sess)) return expect(a, {error_code::transaction_not_found_exception}, "Rollback of an unknown transaction");
        PBT_CHECK(a.ok(), "Rollback: ", a.what());
        auto& x = txs[*ti];
        x.ended = true;
        aborted(x, std::nullopt);
        auto st = status_of(*ti);
        if (x.st == TxM::aborted) PBT_CHECK(st == rs::ABORTED || (!x.known && st == rs::UNTRACKED), "status after Rollback: ", st);
        else PBT_CHECK(st != rs::ABORTED && st != rs::ABORTING, "status of a committed transaction after Rollback: ", st);
    }
    void dispose_tx() {
        auto sess = someone();
        auto ti = some_tx(sess);
        rq::Request r;
        put_tx(r.mutable_dispose_transaction()->mutable_transaction_handle(), ti);
        auto a = send(sess, r, rs::Response::kResultOnly, "DisposeTransaction");
        s.note("dispose by session ", sessions[sess].id, " of ", ti ? cat("transaction ", *ti) : "no transaction", " -> ", a.what());
        PBT_CHECK(a.ok(), "DisposeTransaction: ", a.what());
        if (!alive_tx(ti, sess)) return;
        aborted(txs[*ti], std::nullopt);
        txs[*ti].gone = true;
        gone_check(*ti);
    }
    void dispose_st() {
        auto sess = someone();
        auto si = some_st(sess);
        rq::Request r;
        r.mutable_dispose_prepared_statement()->mutable_prepared_statement_handle()->set_handle(st_handle(si));
        auto a = send(sess, r, rs::Response::kResultOnly, "DisposePreparedStatement");
        s.note("dispose by session ", sessions[sess].id, " of ", si ? cat("statement ", *si) : "no statement", " -> ", a.what());
        PBT_CHECK(a.ok(), "DisposePreparedStatement: ", a.what());
        if (alive_st(si, sess)) sts[*si].gone = true;
    }
    void explain() {
        auto sess = someone();
        bool by_text = s.flip();
        rq::Request r;
        auto n = count_statements(sess);
        if (by_text) {
            auto x = text(false);
            r.mutable_explain_by_text()->set_sql(x.text);
            auto a = send(sess, r, rs::Response::kExplain, "ExplainByText");
            s.note("explain ", name(x.q), " by session ", sessions[sess].id, " -> ", a.what());
            PBT_EQ(count_statements(sess), n, "statements held after ExplainByText");
            if (x.q == Q::bad_text) return expect(a, {error_code::syntax_exception}, "ExplainByText of a malformed text");
            if (x.q == Q::bad_analysis) { PBT_CHECK(!a.ok(), "ExplainByText of a wrong statement succeeded"); return; }
            if (alice(sess)) return expect(a, {error_code::permission_error}, "ExplainByText by a user without privileges");
            PBT_CHECK(a.ok(), "ExplainByText: ", a.what());
            explained(a, x.q, {});
            return;
        }
        auto si = some_st(sess);
        auto* m = r.mutable_explain();
        m->mutable_prepared_statement_handle()->set_handle(st_handle(si));
        std::vector<Given> given;
        if (si) for (std::size_t i = 0; i < sts[*si].phs.size(); ++i) {
            if (s.chance(2)) { given.push_back({false}); continue; }
            given.push_back(param(sts[*si].phs[i], m->add_parameters(), std::nullopt));
        }
        auto a = send(sess, r, rs::Response::kExplain, "Explain");
        s.note("explain ", si ? cat("statement ", *si) : "no statement", " by session ", sessions[sess].id, " -> ", a.what());
        if (!alive_st(si, sess)) { for (auto& g : given) if (g.malformed) return; return expect(a, {error_code::statement_not_found_exception}, "Explain of an unknown statement"); }
        for (auto& g : given) if (g.malformed) { PBT_CHECK(!a.ok(), "Explain succeeded with a malformed decimal"); return; }
        for (auto& g : given) if (!g.present) return expect(a, {error_code::unresolved_placeholder_exception, error_code::parameter_exception}, "Explain");
        for (auto& g : given) if (g.wrong) return expect(a, {error_code::parameter_exception}, "Explain");
        if (alice(sess) && sts[*si].q != Q::vars) return expect(a, {error_code::permission_error}, "Explain by a user without privileges");
        PBT_CHECK(a.ok(), "Explain: ", a.what());
        explained(a, sts[*si].q, sts[*si].phs);
    }
    void explained(Answer const& a, Q q, std::vector<Ph> const& phs) {
        auto& m = a.r.explain().success();
        PBT_CHECK(!m.contents().empty(), "Explain gives nothing");
        if (q == Q::select) {
            PBT_EQ(static_cast<std::size_t>(m.columns_size()), t.d.cols.size(), "columns of an explained query");
            for (std::size_t c = 0; c < t.d.cols.size(); ++c) column(m.columns(static_cast<int>(c)), t.d.cols[c].name, t.d.cols[c].t, "Explain");
        } else if (q == Q::vars) {
            PBT_EQ(static_cast<std::size_t>(m.columns_size()), phs.size(), "columns of an explained query");
            for (std::size_t c = 0; c < phs.size(); ++c) column(m.columns(static_cast<int>(c)), "c_" + phs[c].name, phs[c].ty, "Explain");
        } else PBT_EQ(m.columns_size(), 0, "columns of an explained statement");
    }
    void catalog() {
        auto sess = someone();
        rq::Request r;
        switch (s.draw(2)) {
            case 0: {
                r.mutable_listtables();
                auto a = send(sess, r, rs::Response::kListTables, "ListTables");
                PBT_CHECK(a.ok(), "ListTables: ", a.what());
                std::set<std::string> got;
                for (auto& n : a.r.list_tables().success().table_path_names()) {
                    PBT_EQ(n.identifiers_size(), 1, "parts of a table name");
                    PBT_CHECK(got.insert(n.identifiers(0).label()).second, "ListTables gives ", n.identifiers(0).label(), " twice");
                }
                std::set<std::string> none_;
                PBT_CHECK(got == (alice(sess) ? none_ : tables), "ListTables gives ", got.size(), " names");
                break;
            }
            case 1: {
                r.mutable_getsearchpath();
                PBT_CHECK(send(sess, r, rs::Response::kGetSearchPath, "GetSearchPath").ok(), "GetSearchPath failed");
                break;
            }
            default: {
                bool bad = s.chance(30);
                r.mutable_describe_table()->set_name(bad ? "NOTHING" : "T0");
                auto a = send(sess, r, rs::Response::kDescribeTable, "DescribeTable");
                if (alice(sess)) return expect(a, {error_code::permission_error, error_code::target_not_found_exception}, "DescribeTable by a user without privileges");
                if (bad) return expect(a, {error_code::target_not_found_exception}, "DescribeTable of nothing");
                PBT_CHECK(a.ok(), "DescribeTable: ", a.what());
                auto& m = a.r.describe_table().success();
                PBT_EQ(m.table_name(), "T0");
                PBT_EQ(static_cast<std::size_t>(m.columns_size()), t.d.cols.size(), "columns of the table");
                for (std::size_t c = 0; c < t.d.cols.size(); ++c) {
                    column(m.columns(static_cast<int>(c)), t.d.cols[c].name, t.d.cols[c].t, "DescribeTable");
                    PBT_EQ(m.columns(static_cast<int>(c)).nullable(), t.cols[c].nullable, "DescribeTable: nullable of column ", t.d.cols[c].name);
                }
                PBT_EQ(static_cast<std::size_t>(m.primary_key_size()), t.d.keys.size(), "columns of the primary key");
                for (std::size_t k = 0; k < t.d.keys.size(); ++k) PBT_EQ(m.primary_key(static_cast<int>(k)), t.d.cols[t.d.keys[k].col].name, "column of the primary key");
                break;
            }
        }
    }
    void error_info() {
        auto sess = someone();
        auto ti = some_tx(sess);
        rq::Request r;
        put_tx(r.mutable_get_error_info()->mutable_transaction_handle(), ti);
        auto a = send(sess, r, rs::Response::kGetErrorInfo, "GetErrorInfo");
        if (!alive_tx(ti, sess)) return expect(a, {error_code::transaction_not_found_exception}, "GetErrorInfo of an unknown transaction");
        PBT_CHECK(!a.err && !a.diag, "GetErrorInfo: ", a.what());
        auto& x = txs[*ti];
        auto& g = a.r.get_error_info();
        s.note("error info of transaction ", *ti, " -> ", static_cast<int>(g.result_case()));
        if (!x.known) return;
        if (x.err) {
            PBT_CHECK(g.has_success(), "GetErrorInfo gives nothing for a transaction that ended with ", *x.err);
            PBT_EQ(static_cast<int>(g.success().code()), static_cast<int>(api::impl::map_error(*x.err)), "GetErrorInfo of a transaction that ended with ", *x.err);
        } else PBT_CHECK(g.has_error_not_found(), "GetErrorInfo gives ", g.success().code(), " for a transaction without errors");
    }
    void statement_info() {
        auto sess = someone();
        auto ti = some_tx(sess);
        auto si = some_st(sess);
        auto owner = s.chance(80) || sessions.size() == 1 ? sess : someone();
        rq::Request in, r;
        auto k = s.draw(4);
        std::string want;
        bool prepared = k == 2 || k == 3, other = k == 4;
        switch (k) {
            case 0: put_tx(in.mutable_execute_statement()->mutable_transaction_handle(), ti); in.mutable_execute_statement()->set_sql("some text"); want = "some text"; break;
            case 1: put_tx(in.mutable_execute_query()->mutable_transaction_handle(), ti); in.mutable_execute_query()->set_sql("some text"); want = "some text"; break;
            case 2: put_tx(in.mutable_execute_prepared_statement()->mutable_transaction_handle(), ti); in.mutable_execute_prepared_statement()->mutable_prepared_statement_handle()->set_handle(st_handle(si)); break;
            case 3: put_tx(in.mutable_execute_prepared_query()->mutable_transaction_handle(), ti); in.mutable_execute_prepared_query()->mutable_prepared_statement_handle()->set_handle(st_handle(si)); break;
            default: in.mutable_listtables(); break;
        }
        r.mutable_extract_statement_info()->set_session_id(sessions[owner].id);
        r.mutable_extract_statement_info()->set_payload(pack(in));
        auto a = send(sess, r, rs::Response::kExtractStatementInfo, "ExtractStatementInfo");
        s.note("statement info ", k, " by session ", sessions[sess].id, " of session ", sessions[owner].id, " -> ", a.what());
        if (other) { PBT_CHECK(!a.ok(), "ExtractStatementInfo of another request succeeded"); return; }
        if (prepared) {
            if (!alive_st(si, owner)) return expect(a, {error_code::statement_not_found_exception}, "ExtractStatementInfo");
            want = sts[*si].text;
        }
        PBT_CHECK(a.ok(), "ExtractStatementInfo: ", a.what());
        PBT_EQ(a.r.extract_statement_info().success().sql(), want, "ExtractStatementInfo: the text");
        bool has = alive_tx(ti, owner);
        PBT_EQ(!a.r.extract_statement_info().success().transaction_id().id().empty(), has, "ExtractStatementInfo: whether there is a transaction id");
    }
    void malformed() {
        auto sess = someone();
        auto o = std::make_shared<Seen>();
        std::string body;
        std::set<Code> want{Code::INVALID_REQUEST};
        rq::Request r;
        switch (s.draw(3)) {
            case 0: body = s.bytes(20) + "\x07"; if (r.ParseFromString(body)) return; break;
            case 1: body = pack(r); break;
            case 2: r.mutable_begin(); body = pack(r); r.set_service_message_version_major(jogasaki::service_message_version_major + 1); r.SerializeToString(&body); break;
            default: r.mutable_batch(); body = pack(r); want = {Code::UNSUPPORTED_OPERATION}; break;
        }
        auto [q, w] = raw(sess, body, o);
        protocol(*q, "a malformed request");
        PBT_EQ(q->errors.size(), 1U, "answers to a malformed request");
        PBT_CHECK(want.count(q->errors[0].code()), "code of the answer to a malformed request: ", q->errors[0].code());
        PBT_CHECK(w.expired(), "the response to a malformed request is kept");
    }
    void lob() {
        auto sess = someone();
        auto ti = some_tx(sess);
        if (!alive_tx(ti, sess)) return;
        rq::Request r;
        auto* m = r.mutable_get_large_object_data();
        put_tx(m->mutable_transaction_handle(), ti);
        m->mutable_reference()->set_object_id(static_cast<u64>(s.range(1, 9)));
        m->mutable_reference()->set_reference_tag(m->reference().object_id() ^ txs[*ti].handle ^ (1ULL << s.range(40, 60)));
        m->mutable_reference()->set_provider(sq::common::LargeObjectProvider::DATASTORE);
        auto a = send(sess, r, rs::Response::kGetLargeObjectData, "GetLargeObjectData");
        s.note("large object by session ", sessions[sess].id, " in transaction ", *ti, " -> ", a.what());
        expect(a, {error_code::permission_error}, "GetLargeObjectData with a tag of another transaction");
        PBT_EQ(a.seen->blobs, 0U, "large objects given away");
        auto& x = txs[*ti];
        if (x.st == TxM::active) {
            aborted(x, error_code::permission_error);
            PBT_EQ(static_cast<int>(status_of(*ti)), static_cast<int>(rs::ABORTED), "status after a large object was refused");
        } else x.known = false;
    }
    void close_session() {
        if (!stores || sessions.size() < 2 || !s.chance(20)) return;
        auto i = someone();
        for (auto& p : pending) if (txs[p.tx].sess == i) return;
        s.note("session ", sessions[i].id, " ends");
        for (auto& [k, x] : sessions[i].store->elements_) x->dispose();
        sessions[i].store->elements_.clear();
        for (auto& x : txs) if (x.sess == i && !x.gone) { aborted(x, std::nullopt); x.gone = true; }
        for (auto& x : sts) if (x.sess == i) x.gone = true;
        PBT_EQ(count_statements(i), 0U, "statements of a session that ended");
    }
    void step() {
        switch (s.draw(27)) {
            case 0: case 1: case 2: begin(); break;
            case 3: case 4: case 5: prepare(); break;
            case 6: case 7: case 8: case 9: execute_text(); break;
            case 10: case 11: case 12: case 13: case 14: case 15: execute_prepared(); break;
            case 16: case 17: case 18: commit(); break;
            case 19: rollback(); break;
            case 20: dispose_tx(); break;
            case 21: dispose_st(); break;
            case 22: explain(); break;
            case 23: catalog(); break;
            case 24: error_info(); break;
            case 25: statement_info(); break;
            case 26: if (s.flip()) durable(); else if (s.flip()) malformed(); else missing_parts(); break;
            default: if (s.flip()) lob(); else close_session(); break;
        }
        if (s.chance(20)) durable();
        PBT_EQ(fake::st().open_iterators, 0U, "iterators left open");
        PBT_CHECK(!fake::st().misuse, "misuse of the storage engine");
        t.check(e, "after a request");
    }
    void finish() {
        while (!pending.empty()) {
            fake::st().durable = fake::st().marker;
            fake::st().durability(fake::st().marker);
            pump();
            looked(std::nullopt);
            for (auto it = pending.begin(); it != pending.end(); it = pending.erase(it)) {
                auto a = judge(it->seen, it->weak, rs::Response::kResultOnly, "Commit, at the end");
                finish_commit(it->tx, a, it->dispose || txs[it->tx].gone, "Commit, at the end");
            }
        }
        for (auto& x : txs) {
            if (x.gone) continue;
            rq::Request r;
            r.mutable_dispose_transaction()->mutable_transaction_handle()->set_handle(x.handle);
            PBT_CHECK(send(x.sess, r, rs::Response::kResultOnly, "DisposeTransaction").ok(), "DisposeTransaction failed at the end");
            aborted(x, std::nullopt);
            x.gone = true;
        }
        PBT_EQ(e.db->transaction_count(), base_count, "transactions left");
        t.check(e, "at the end");
        PBT_EQ(fake::st().open_tx, base_open, "transactions of the engine left open");
    }
};
}  // namespace
