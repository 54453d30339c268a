// P30: requests of the key-value service against a model of its transactions and of the tables, which SQL statements
// read and change as well: both see the same rows, and the storages hold what either would have written.
#include "table.inc"
#include <jogasaki/api/kvsservice/column_data.h>
#include <jogasaki/api/kvsservice/impl/service.h>
#include <jogasaki/api/kvsservice/serializer.h>
#include <jogasaki/api/kvsservice/status.h>
#include <jogasaki/api/kvsservice/store.h>
#include <jogasaki/api/kvsservice/transaction_utils.h>
#include <jogasaki/api/resource/bridge.h>
#include <tateyama/proto/kvs/request.pb.h>
#include <tateyama/proto/kvs/response.pb.h>
#include <atomic>
#include <thread>
using namespace eng;
namespace {
std::shared_ptr<jogasaki::api::database> current;  // what the bridge gives
}
// the bridge to the framework is not compiled; this is all the store needs of it
namespace jogasaki::api::resource {
bridge::bridge() : db_(current) {}
bridge::id_type bridge::id() const noexcept { return tag; }
bool bridge::setup(framework::environment&) { return true; }
bool bridge::start(framework::environment&) { return true; }
bool bridge::shutdown(framework::environment&) { return true; }
bridge::~bridge() = default;
jogasaki::api::database* bridge::database() const noexcept { return db_.get(); }
std::string_view bridge::label() const noexcept { return component_label; }
}  // namespace jogasaki::api::resource
namespace {
namespace kp = tateyama::proto::kvs;
namespace kq = tateyama::proto::kvs::request;
namespace kr = tateyama::proto::kvs::response;
namespace kt = tateyama::proto::kvs::transaction;
namespace sv = tateyama::api::server;
namespace ka = jogasaki::api::kvsservice;
using St = ka::status;
using SC = sharksfin::StatusCode;

struct Request : sv::request {
    std::string body{};
    [[nodiscard]] std::size_t session_id() const override { return 7; }
    [[nodiscard]] std::string_view payload() const override { return body; }
};
struct Response : sv::response {
    std::vector<std::string> bodies{};
    std::size_t sid = 0, others = 0;
    void session_id(std::size_t i) override { sid = i; }
    tateyama::status body(std::string_view b) override { bodies.emplace_back(b); return tateyama::status::ok; }
    tateyama::status body_head(std::string_view) override { ++others; return tateyama::status::ok; }
    void error(tateyama::proto::diagnostics::Record const&) override { ++others; }
};

// ---- values on the wire
unsigned __int128 mag(triple const& t) { return static_cast<unsigned __int128>(t.coefficient_high()) << 64 | t.coefficient_low(); }
void put_decimal(Src& s, kp::data::Decimal* d, triple x) {
    auto c = mag(x);
    while (c != 0 && c % 10 == 0 && s.chance(40)) { c /= 10; x = triple{x.sign(), static_cast<u64>(c >> 64), static_cast<u64>(c), x.exponent() + 1}; }
    bool neg = x.sign() < 0 && c != 0;
    unsigned __int128 m = neg ? ~c + 1 : c;
    std::string full(1, neg ? '\xff' : '\0');
    for (int i = 15; i >= 0; --i) full.push_back(static_cast<char>(static_cast<unsigned char>(m >> (8 * i))));
    std::size_t from = 0;
    while (from + 1 < full.size() && static_cast<unsigned char>(full[from]) == (neg ? 0xff : 0) && (static_cast<unsigned char>(full[from + 1]) >> 7) == (neg ? 1 : 0)) ++from;
    from -= std::min<std::size_t>(from, static_cast<std::size_t>(s.range(0, 2)));
    d->set_unscaled_value(full.substr(from));
    d->set_exponent(x.exponent());
}
// two's complement, at most 17 octets
triple get_decimal(kp::data::Decimal const& d) {
    auto& b = d.unscaled_value();
    PBT_CHECK(!b.empty() && b.size() <= 17, "a decimal of ", b.size(), " octets");
    bool neg = (static_cast<unsigned char>(b[0]) & 0x80U) != 0;
    unsigned __int128 c = neg ? ~static_cast<unsigned __int128>(0) : 0;
    for (char x : b) c = c << 8 | static_cast<unsigned char>(x);
    if (neg) c = ~c + 1;
    return triple{neg ? -1 : c == 0 ? 0 : 1, static_cast<u64>(c >> 64), static_cast<u64>(c), d.exponent()};
}
void to_wire(Src& s, V const& v, kp::data::Value* m) {
    if (v.null) return;
    switch (v.k) {
        case K::boolean: m->set_boolean_value(v.i != 0); break;
        case K::int4: m->set_int4_value(static_cast<std::int32_t>(v.i)); break;
        case K::int8: m->set_int8_value(v.i); break;
        case K::float4: m->set_float4_value(v.f); break;
        case K::float8: m->set_float8_value(v.d); break;
        case K::decimal: put_decimal(s, m->mutable_decimal_value(), v.t); break;
        case K::character: m->set_character_value(v.s); break;
        case K::octet: m->set_octet_value(v.s); break;
        case K::date: m->set_date_value(v.i); break;
        case K::time_of_day: m->set_time_of_day_value(static_cast<u64>(v.i)); break;
        case K::time_point:
            m->mutable_time_point_value()->set_offset_seconds(v.i);
            m->mutable_time_point_value()->set_nano_adjustment(static_cast<std::uint32_t>(v.n));
            break;
        default: std::abort();
    }
}
V from_wire(Ty const& t, kp::data::Value const& m, std::string const& what) {
    using C = kp::data::Value;
    V v;
    v.k = t.k;
    auto want = [&](C::ValueCase c) { PBT_EQ(static_cast<int>(m.value_case()), static_cast<int>(c), what, ": kind of value for a column of type ", t); };
    if (m.value_case() == C::VALUE_NOT_SET) { v.null = true; return v; }
    switch (t.k) {
        case K::boolean: want(C::kBooleanValue); v.i = m.boolean_value(); break;
        case K::int4: want(C::kInt4Value); v.i = m.int4_value(); break;
        case K::int8: want(C::kInt8Value); v.i = m.int8_value(); break;
        case K::float4: want(C::kFloat4Value); v.f = m.float4_value(); break;
        case K::float8: want(C::kFloat8Value); v.d = m.float8_value(); break;
        case K::decimal: want(C::kDecimalValue); v.t = get_decimal(m.decimal_value()); break;
        case K::character: want(C::kCharacterValue); v.s = m.character_value(); break;
        case K::octet: want(C::kOctetValue); v.s = m.octet_value(); break;
        case K::date: want(C::kDateValue); v.i = m.date_value(); break;
        case K::time_of_day: want(C::kTimeOfDayValue); v.i = static_cast<i64>(m.time_of_day_value()); break;
        case K::time_point: want(C::kTimePointValue); v.i = m.time_point_value().offset_seconds(); v.n = static_cast<std::int32_t>(m.time_point_value().nano_adjustment()); break;
        default: std::abort();
    }
    return v;
}
bool equal(V const& a, V const& b) {
    if (a.null || b.null || a.k != K::decimal) return same(a, b);
    auto x = mag(a.t), y = mag(b.t);
    auto ex = a.t.exponent(), ey = b.t.exponent();
    if (x == 0 || y == 0) return x == y;
    if (a.t.sign() != b.t.sign()) return false;
    while (x % 10 == 0) { x /= 10; ++ex; }
    while (y % 10 == 0) { y /= 10; ++ey; }
    return x == y && ex == ey;
}
void ascii(V& v) {
    if (v.k == K::character) for (auto& c : v.s) c = static_cast<char>((c & 0x7f) ? c & 0x7f : 'z');
}

struct TxM {
    u64 handle = 0;
    bool ended = false, gone = false, wrote = false;
    bool dead = false;  // the transaction engine has aborted it
    std::vector<std::map<std::string, Row_>> before{};
};
struct Ans {
    kr::Response r{};
    std::string raw{};
    std::optional<kr::Error> err{};
    [[nodiscard]] bool ok() const { return !err; }
    [[nodiscard]] St code() const { return err ? static_cast<St>(err->code()) : St::ok; }
    [[nodiscard]] std::string what() const { return err ? cat("error ", err->code(), " \"", err->detail(), "\"") : std::string{"success"}; }
};
using Codes = std::set<St>;

struct World {
    Src& s;
    Engine e;
    std::vector<Tab> tabs{};
    std::unique_ptr<ka::store> store{};
    std::unique_ptr<ka::impl::service> svc{};
    std::deque<TxM> txs{};
    std::size_t base = 0, gets = 0, puts = 0, commits = 0, refused = 0, crossed = 0;

    explicit World(Src& src) : s(src) {
        auto n = s.range(1, 2);
        for (i64 i = 0; i < n; ++i) {
            auto t = gen_table(s, cat("T", i), false, s.chance(15));
            for (auto& c : t.d.cols) c.t.off = false;
            e.must(Engine::create_table(t.d));
            for (auto& x : t.secs) e.must(e.create_index(t.d.name, x));
            t.bound(e);
            s.note(t.describe());
            tabs.push_back(std::move(t));
        }
        current = e.db;
        store = std::make_unique<ka::store>(std::make_shared<jogasaki::api::resource::bridge>());
        svc = std::make_unique<ka::impl::service>(nullptr, store.get());
        current.reset();
        base = static_cast<std::size_t>(fake::st().open_tx);
    }
    Ans raw(std::string const& body, std::string const& what) {
        auto q = std::make_shared<Request>();
        q->body = body;
        auto p = std::make_shared<Response>();
        bool ret = (*svc)(q, p);
        PBT_CHECK(ret, what, ": the service refused the request");
        PBT_EQ(p->bodies.size(), 1U, what, ": number of answers");
        PBT_EQ(p->others, 0U, what, ": other answers");
        PBT_EQ(p->sid, 7U, what, ": session of the answer");
        Ans a;
        a.raw = p->bodies[0];
        return a;
    }
    template <class F>
    static void pick_error(Ans& a, F const& m) { if (m.has_error()) a.err = m.error(); else PBT_CHECK(m.has_success(), "an answer without a result"); }
    Ans send(kq::Request const& r, std::string const& what) {
        auto a = raw(r.SerializeAsString(), what);
        PBT_CHECK(a.r.ParseFromString(a.raw), what, ": an answer that cannot be parsed");
        using Q = kq::Request;
        switch (r.command_case()) {
            case Q::kBegin: PBT_CHECK(a.r.has_begin(), what, ": answer of another kind"); pick_error(a, a.r.begin()); break;
            case Q::kCommit: PBT_CHECK(a.r.has_commit(), what, ": answer of another kind"); pick_error(a, a.r.commit()); break;
            case Q::kRollback: PBT_CHECK(a.r.has_rollback(), what, ": answer of another kind"); pick_error(a, a.r.rollback()); break;
            case Q::kGet: PBT_CHECK(a.r.has_get(), what, ": answer of another kind"); pick_error(a, a.r.get()); break;
            case Q::kPut: PBT_CHECK(a.r.has_put(), what, ": answer of another kind"); pick_error(a, a.r.put()); break;
            case Q::kRemove: PBT_CHECK(a.r.has_remove(), what, ": answer of another kind"); pick_error(a, a.r.remove()); break;
            case Q::kDisposeTransaction: PBT_CHECK(a.r.has_dispose_transaction(), what, ": answer of another kind"); pick_error(a, a.r.dispose_transaction()); break;
            case Q::kGetErrorInfo:
                PBT_CHECK(a.r.has_get_error_info(), what, ": answer of another kind");
                if (a.r.get_error_info().has_error()) a.err = a.r.get_error_info().error();
                break;
            default: std::abort();
        }
        if (a.err) PBT_CHECK(a.err->code() != 0, what, ": an error without a code");
        if (a.err) ++refused;
        return a;
    }
    void judge(Ans const& a, Codes const& why, std::string const& what) {
        if (why.empty()) { PBT_CHECK(a.ok(), what, ": ", a.what()); return; }
        PBT_CHECK(!a.ok(), what, " succeeded");
        PBT_CHECK(why.count(a.code()), what, ": ", a.what(), ", expected code ", static_cast<int>(*why.begin()));
    }
    // ---- transactions
    TxM* writer() {
        for (auto& t : txs) if (t.wrote && !t.ended && !t.gone && !t.dead) return &t;
        return nullptr;
    }
    TxM* someone() {
        if (txs.empty() || s.chance(3)) return nullptr;
        if (s.chance(75)) {
            std::vector<TxM*> act;
            for (auto& t : txs) if (!t.ended && !t.gone) act.push_back(&t);
            if (!act.empty()) return s.pick(act);
        }
        return &txs[s.idx(txs.size())];
    }
    static bool usable(TxM* t) { return t && !t->ended && !t->gone && !t->dead; }
    u64 handle(TxM* t) { return t ? t->handle : s.pick({u64{0}, u64{1}, ~u64{0}, u64{12345}}); }
    void unusable(TxM* t, Codes& why) {
        if (!t || t->gone) why.insert(St::err_invalid_argument);
        else if (t->ended || t->dead) why.insert(St::err_inactive_transaction);
    }
    void undo(TxM& t) {
        if (t.wrote) for (std::size_t i = 0; i < tabs.size(); ++i) tabs[i].rows = t.before[i];
        t.wrote = false;
    }
    void touch(TxM& t) {
        if (t.wrote) return;
        t.wrote = true;
        t.before.clear();
        for (auto& x : tabs) t.before.push_back(x.rows);
    }
    bool arm(std::initializer_list<char const*> ops, SC& code) {
        fake::st().delivered.clear();
        if (!s.chance(4)) return false;
        code = s.pick({SC::ERR_UNKNOWN, SC::ERR_IO_ERROR, SC::ERR_ABORTED_RETRYABLE, SC::ERR_ABORTED, SC::ERR_INVALID_KEY_LENGTH, SC::ERR_RESOURCE_LIMIT_REACHED, SC::ERR_ILLEGAL_OPERATION});
        std::vector<char const*> v{ops};
        fake::st().faults.push_back({s.pick(v), static_cast<int>(s.range(0, 1)), code});
        return true;
    }
    bool hit() {
        bool h = !fake::st().delivered.empty();
        fake::st().faults.clear();
        fake::st().delivered.clear();
        return h;
    }
    static St mapped(SC c) {
        switch (c) {
            case SC::ERR_UNKNOWN: return St::err_unknown;
            case SC::ERR_IO_ERROR: return St::err_io_error;
            case SC::ERR_ABORTED_RETRYABLE: return St::err_aborted_retryable;
            case SC::ERR_ABORTED: return St::err_aborted;
            case SC::ERR_INVALID_KEY_LENGTH: return St::err_invalid_key_length;
            case SC::ERR_RESOURCE_LIMIT_REACHED: return St::err_resource_limit_reached;
            case SC::ERR_ILLEGAL_OPERATION: return St::err_illegal_operation;
            default: std::abort();
        }
    }
    void begin() {
        kq::Request r;
        auto* b = r.mutable_begin();
        bool bad = false;
        if (s.chance(70)) {
            auto* o = b->mutable_transaction_option();
            if (s.flip()) o->set_type(kt::SHORT);
            if (s.chance(25)) {
                bad = true;
                switch (s.range(0, 7)) {
                    case 0: o->set_type(kt::LONG); break;
                    case 1: o->set_type(kt::READ_ONLY); break;
                    case 2: o->set_label("label"); break;
                    case 3: o->set_priority(s.pick({kt::INTERRUPT, kt::WAIT, kt::INTERRUPT_EXCLUDE, kt::WAIT_EXCLUDE})); break;
                    case 4: o->set_modifies_definitions(true); break;
                    case 5: o->add_write_preserves()->set_table_name("T0"); break;
                    case 6: o->add_inclusive_read_areas()->set_table_name("T0"); break;
                    default: o->add_exclusive_read_areas()->set_table_name("T0"); break;
                }
            }
        }
        SC code{};
        arm({"transaction_begin"}, code);
        auto a = send(r, "Begin");
        bool f = hit();
        s.note("begin -> ", a.what());
        if (bad) return judge(a, {St::err_not_implemented}, "Begin with an option not supported");
        if (f) return judge(a, {mapped(code)}, "Begin");
        judge(a, {}, "Begin");
        TxM t;
        t.handle = a.r.begin().success().transaction_handle().system_id();
        for (auto& o : txs) PBT_CHECK(o.gone || o.handle != t.handle, "two transactions of one handle");
        for (auto& o : txs) if (o.handle == t.handle) o.handle = 0;  // forgotten
        txs.push_back(t);
    }
    void commit() {
        auto* t = someone();
        kq::Request r;
        auto* c = r.mutable_commit();
        c->mutable_transaction_handle()->set_system_id(handle(t));
        bool bad = s.chance(6), dispose = s.flip();
        if (bad) c->set_notification_type(s.pick({kq::ACCEPTED, kq::AVAILABLE, kq::STORED, kq::PROPAGATED}));
        c->set_auto_dispose(dispose);
        Codes why;
        unusable(t, why);
        if (bad) why.insert(St::err_not_implemented);
        SC code{};
        if (why.empty()) arm({"transaction_commit"}, code);
        else fake::st().delivered.clear();
        auto a = send(r, "Commit");
        bool f = hit();
        s.note("commit of ", index(t), bad ? " with an option" : "", dispose ? " and dispose" : "", " -> ", a.what());
        if (f) why.insert(mapped(code));
        judge(a, why, "Commit");
        if (bad || !t || t->gone || t->ended) return;
        t->ended = true;
        if (f || t->dead) { undo(*t); return; }
        ++commits;
        t->wrote = false;
        t->gone = dispose;
    }
    void rollback() {
        auto* t = someone();
        kq::Request r;
        r.mutable_rollback()->mutable_transaction_handle()->set_system_id(handle(t));
        Codes why;
        if (!t || t->gone) why.insert(St::err_invalid_argument);
        else if (t->ended) why.insert(St::err_inactive_transaction);
        auto a = send(r, "Rollback");
        s.note("rollback of ", index(t), " -> ", a.what());
        judge(a, why, "Rollback");
        if (!why.empty()) return;
        undo(*t);
        t->ended = true;
    }
    void dispose() {
        auto* t = someone();
        kq::Request r;
        r.mutable_dispose_transaction()->mutable_transaction_handle()->set_system_id(handle(t));
        Codes why;
        if (!t || t->gone) why.insert(St::err_invalid_argument);
        auto a = send(r, "DisposeTransaction");
        s.note("dispose of ", index(t), " -> ", a.what());
        judge(a, why, "DisposeTransaction");
        if (!why.empty()) return;
        if (!t->ended) undo(*t);
        t->ended = t->gone = true;
    }
    void error_info() {
        auto* t = someone();
        kq::Request r;
        r.mutable_get_error_info()->mutable_transaction_handle()->set_system_id(handle(t));
        Codes why;
        if (!t || t->gone) why.insert(St::err_invalid_argument);
        auto a = send(r, "GetErrorInfo");
        s.note("error info of ", index(t), " -> ", a.what());
        judge(a, why, "GetErrorInfo");
    }
    std::string index(TxM* t) {
        if (!t) return "no transaction";
        for (std::size_t i = 0; i < txs.size(); ++i) if (&txs[i] == t) return cat("transaction ", i);
        return "?";
    }
    // ---- records
    static bool keyless(Tab const& t) { return t.d.keys.empty(); }
    V cell(Tab const& t, std::size_t c) {
        V v = gen_cell(s, t, c);
        v.k = t.cols[c].t.k;
        ascii(v);
        if (v.null) { v = gen_value(s, t.cols[c].t, 90); ascii(v); }
        // trailing blanks of a fixed length string need not be sent
        if (v.k == K::character && !t.cols[c].t.varying && s.flip()) while (!v.s.empty() && v.s.back() == ' ') v.s.pop_back();
        return v;
    }
    struct Rec {
        Row_ row{};
        std::vector<std::size_t> sent{};
        Codes why{};
    };
    // a record for a request: the key, and the values too when they are to be stored
    Rec record(Tab const& t, bool values, bool extra, kp::data::Record* m) {
        Rec r;
        r.row.resize(t.cols.size());
        if (s.chance(70) && !t.rows.empty()) {
            auto it = t.rows.begin();
            std::advance(it, s.idx(t.rows.size()));
            r.row = it->second;
        } else for (std::size_t c = 0; c < t.visible(); ++c) r.row[c] = cell(t, c);
        if (values) for (std::size_t c = 0; c < t.visible(); ++c) if (!t.is_key(c)) {
            r.row[c] = cell(t, c);
            if (s.chance(20)) {
                r.row[c] = V{};
                r.row[c].k = t.cols[c].t.k;
                r.row[c].null = true;
                if (!t.cols[c].nullable) r.why.insert(St::err_invalid_argument);
            }
        }
        if (keyless(t)) r.why.insert(St::err_mismatch_key);
        for (std::size_t c = 0; c < t.visible(); ++c) if (t.is_key(c) || values || (extra && s.chance(40))) r.sent.push_back(c);
        for (std::size_t i = r.sent.size(); i > 1; --i) std::swap(r.sent[i - 1], r.sent[s.idx(i)]);
        std::optional<std::size_t> miss{}, wrong{}, dup{}, null{}, wide{}, bad{};
        if (!r.sent.empty() && s.chance(8)) {
            auto i = s.idx(r.sent.size());
            auto c = r.sent[i];
            bool key = t.is_key(c);
            switch (s.range(0, 5)) {
                case 0:
                    r.sent.erase(r.sent.begin() + static_cast<std::ptrdiff_t>(i));
                    if (key) r.why.insert(St::err_mismatch_key);
                    else if (values) r.why.insert(St::err_incomplete_columns);
                    break;
                case 1: wrong = c; if (key || values) r.why.insert(St::err_column_type_mismatch); break;
                case 2: dup = c; r.why.insert(St::err_invalid_argument); break;
                case 3: null = c; if (key || (values && !t.cols[c].nullable)) r.why.insert(St::err_invalid_argument); else if (values) { r.row[c] = V{}; r.row[c].k = t.cols[c].t.k; r.row[c].null = true; } break;
                case 4: if (t.cols[c].t.k == K::decimal && (key || values)) { bad = c; r.why.insert(St::err_invalid_argument); } break;
                default: if (t.cols[c].t.k == K::character && t.cols[c].t.len && (key || values)) { wide = c; r.why.insert(St::err_resource_limit_reached); } break;
            }
        }
        for (auto c : r.sent) if (t.cols[c].t.k == K::octet && (t.is_key(c) || values) && !r.row[c].null) r.why.insert(St::err_not_implemented);
        for (auto c : r.sent) {
            m->add_names(t.cols[c].name);
            auto* v = m->add_values();
            if (wrong == c) {
                if (t.cols[c].t.k == K::character) v->set_int8_value(1);
                else v->set_character_value("x");
            } else if (bad == c) {
                auto* d = v->mutable_decimal_value();
                if (s.flip()) { d->set_unscaled_value(s.pick({std::string(18, '\x11'), std::string(17, '\x01'), "\xff" + std::string(16, '\0')})); d->set_exponent(-static_cast<int>(*t.cols[c].t.scale)); }
                else { d->set_unscaled_value("\x01"); d->set_exponent(s.flip() ? -static_cast<int>(*t.cols[c].t.scale) - 1 : static_cast<int>(*t.cols[c].t.prec - *t.cols[c].t.scale)); }
            } else if (wide == c) v->set_character_value(std::string(*t.cols[c].t.len + 1, 'w'));
            else if (null != c) to_wire(s, r.row[c], v);
        }
        if (dup) {
            m->add_names(t.cols[*dup].name);
            to_wire(s, r.row[*dup], m->add_values());
        }
        if (s.chance(3)) {
            m->add_names(s.pick({"NOTHING", "", "c0"}));
            m->add_values()->set_int4_value(1);
            r.why.insert(St::err_column_not_found);
        }
        if (s.chance(2)) {
            if (s.flip()) m->add_names("C0");
            else m->add_values()->set_int4_value(1);
            r.why = {St::err_invalid_argument};
        }
        if (m->names_size() == 0) r.why = {St::err_invalid_argument};
        for (std::size_t c = 0; c < t.cols.size(); ++c) if (!r.row[c].null) r.row[c] = stored(t.cols[c].t, r.row[c]);
        return r;
    }
    Tab* table(std::string& name, Codes& why) {
        auto* t = &tabs[s.idx(tabs.size())];
        name = t->d.name;
        if (s.chance(3)) { name = "NOTHING"; why.insert(St::err_table_not_found); return nullptr; }
        if (s.chance(2)) { name = ""; why.insert(St::err_invalid_argument); return nullptr; }
        return t;
    }
    static std::string show(Tab const& t, Rec const& r) {
        std::string o;
        for (auto c : r.sent) o += cat(o.empty() ? "" : ", ", t.cols[c].name, "=", r.row[c]);
        return o;
    }
    void put() {
        auto* x = someone();
        if (usable(x) && writer() && writer() != x) x = writer();
        kq::Request q;
        auto* m = q.mutable_put();
        m->mutable_transaction_handle()->set_system_id(handle(x));
        Codes why;
        std::string name;
        auto* t = table(name, why);
        m->mutable_index()->set_table_name(name);
        int kind = static_cast<int>(s.range(0, 3));
        m->set_type(static_cast<kq::Put::Type>(kind));
        auto& any = t ? *t : tabs[0];
        auto r = record(any, true, false, m->add_records());
        if (t && !t->secs.empty()) r.why.insert(St::err_not_implemented);
        if (t) why.insert(r.why.begin(), r.why.end());
        else if (r.why == Codes{St::err_invalid_argument}) why.insert(St::err_invalid_argument);
        if (s.chance(2)) {
            if (s.flip()) m->clear_records();
            else *m->add_records() = m->records(0);
            why = {St::err_unsupported};
        }
        Codes state;
        unusable(x, state);
        SC code{};
        if (why.empty() && state.empty()) arm({"content_put"}, code);
        else fake::st().delivered.clear();
        why.insert(state.begin(), state.end());
        auto a = send(q, "Put");
        bool f = hit();
        s.note("put (", kind, ") into ", name, " by ", index(x), ": ", show(any, r), " -> ", a.what(), a.ok() ? cat(" written ", a.r.put().success().written()) : "");
        if (f) why.insert(mapped(code));
        judge(a, why, "Put");
        if (f && usable(x) && fake::aborts(code)) { undo(*x); x->dead = true; }
        if (!why.empty()) return;
        auto k = t->key(r.row);
        bool there = t->rows.count(k) != 0;
        bool done = !(kind == kq::Put::IF_ABSENT && there) && !(kind == kq::Put::IF_PRESENT && !there);
        PBT_EQ(a.r.put().success().written(), done ? 1 : 0, "number of records written");
        if (!done) return;
        touch(*x);
        ++puts;
        t->rows[k] = r.row;
    }
    void get() {
        auto* x = someone();
        kq::Request q;
        auto* m = q.mutable_get();
        m->mutable_transaction_handle()->set_system_id(handle(x));
        Codes why;
        std::string name;
        auto* t = table(name, why);
        m->mutable_index()->set_table_name(name);
        auto& any = t ? *t : tabs[0];
        auto r = record(any, false, s.chance(15), m->add_keys());
        if (t) why.insert(r.why.begin(), r.why.end());
        else if (r.why == Codes{St::err_invalid_argument}) why.insert(St::err_invalid_argument);
        if (s.chance(2)) {
            if (s.flip()) m->clear_keys();
            else *m->add_keys() = m->keys(0);
            why = {St::err_unsupported};
        }
        Codes state;
        unusable(x, state);
        SC code{};
        if (why.empty() && state.empty()) arm({"content_get"}, code);
        else fake::st().delivered.clear();
        why.insert(state.begin(), state.end());
        auto a = send(q, "Get");
        bool f = hit();
        s.note("get from ", name, " by ", index(x), ": ", show(any, r), " -> ", a.what(), a.ok() ? cat(" records ", a.r.get().success().records_size()) : "");
        if (f) why.insert(mapped(code));
        std::optional<Row_> want{};
        if (why.empty()) {
            auto it = t->rows.find(t->key(r.row));
            if (it != t->rows.end()) {
                want = it->second;
                for (std::size_t c = 0; c < t->cols.size(); ++c) if (t->cols[c].t.k == K::octet) why = {St::err_not_implemented, St::err_invalid_argument};  // not supported yet
            }
        }
        judge(a, why, "Get");
        if (f && usable(x) && fake::aborts(code)) { undo(*x); x->dead = true; }
        if (!why.empty()) return;
        PBT_EQ(a.r.get().success().records_size(), want ? 1 : 0, "number of records found");
        if (!want) return;
        ++gets;
        auto& rec = a.r.get().success().records(0);
        PBT_EQ(rec.names_size(), static_cast<int>(t->cols.size()), "number of names of a record");
        PBT_EQ(rec.values_size(), static_cast<int>(t->cols.size()), "number of values of a record");
        for (std::size_t c = 0; c < t->cols.size(); ++c) {
            auto i = static_cast<int>(c);
            PBT_EQ(rec.names(i), t->cols[c].name, "name of column ", c);
            auto v = from_wire(t->cols[c].t, rec.values(i), cat("Get: column ", c));
            if (t->is_key(c)) v = stored(t->cols[c].t, v);
            PBT_CHECK(equal(v, (*want)[c]), "Get: column ", c, " of type ", t->cols[c].t, " is ", v, " but the row has ", (*want)[c]);
        }
    }
    void remove() {
        auto* x = someone();
        if (usable(x) && writer() && writer() != x) x = writer();
        kq::Request q;
        auto* m = q.mutable_remove();
        m->mutable_transaction_handle()->set_system_id(handle(x));
        Codes why;
        std::string name;
        auto* t = table(name, why);
        m->mutable_index()->set_table_name(name);
        int kind = static_cast<int>(s.range(0, 2));
        m->set_type(static_cast<kq::Remove::Type>(kind));
        auto& any = t ? *t : tabs[0];
        auto r = record(any, false, s.chance(10), m->add_keys());
        if (t && !t->secs.empty()) r.why.insert(St::err_not_implemented);
        if (t) why.insert(r.why.begin(), r.why.end());
        else if (r.why == Codes{St::err_invalid_argument}) why.insert(St::err_invalid_argument);
        if (s.chance(2)) {
            if (s.flip()) m->clear_keys();
            else *m->add_keys() = m->keys(0);
            why = {St::err_unsupported};
        }
        Codes state;
        unusable(x, state);
        SC code{};
        if (why.empty() && state.empty()) arm({"content_get", "content_delete"}, code);
        else fake::st().delivered.clear();
        why.insert(state.begin(), state.end());
        auto a = send(q, "Remove");
        bool f = hit();
        s.note("remove (", kind, ") from ", name, " by ", index(x), ": ", show(any, r), " -> ", a.what(), a.ok() ? cat(" removed ", a.r.remove().success().removed()) : "");
        if (f) why.insert(mapped(code));
        judge(a, why, "Remove");
        if (f && usable(x) && fake::aborts(code)) { undo(*x); x->dead = true; }
        if (!why.empty()) return;
        auto k = t->key(r.row);
        bool there = t->rows.count(k) != 0;
        // counting is asked for unless the entry is removed at once
        if (kind != kq::Remove::INSTANT) PBT_EQ(a.r.remove().success().removed(), there ? 1 : 0, "number of records removed");
        if (!there) return;
        touch(*x);
        t->rows.erase(k);
    }
    // ---- the same rows in SQL
    void sql_insert() {
        if (writer()) return;
        auto& t = tabs[s.idx(tabs.size())];
        std::vector<std::size_t> cs;
        for (std::size_t c = 0; c < t.visible(); ++c) cs.push_back(c);
        auto tx = e.begin();
        ++base;  // the engine keeps it until it is disposed
        for (i64 n = s.range(1, 3); n > 0; --n) {
            Row_ row;
            for (auto c : cs) {
                row.push_back(cell(t, c));
                if (t.cols[c].nullable && s.chance(25)) { row.back() = V{}; row.back().k = t.cols[c].t.k; row.back().null = true; }
            }
            if (keyless(t)) return;  // with a key of its own
            for (auto c : cs) if (!row[c].null) row[c] = stored(t.cols[c].t, row[c]);
            if (t.rows.count(t.key(row))) continue;
            std::vector<Engine::Cell> cells;
            for (auto c : cs) cells.push_back({row[c], t.cols[c].t});
            auto r = e.exec(tx, e.insert(t.d.name, cs, {cells}));
            PBT_CHECK(r.ok(), "insert: ", r.what());
            s.note("SQL insert into ", t.d.name, " ", Tab::show_row(row));
            t.put(row);
            ++crossed;
        }
        PBT_CHECK(e.commit(tx) == status::ok, "commit of SQL inserts");
    }
    void sql_select() {
        auto& t = tabs[s.idx(tabs.size())];
        auto tx = e.begin();
        ++base;  // the engine keeps it until it is disposed
        auto r = e.exec(tx, e.select_all(t.d.name));
        PBT_CHECK(r.ok(), "select: ", r.what());
        PBT_EQ(r.rows.size(), t.rows.size(), "rows SQL sees in ", t.d.name);
        std::vector<std::string> a, b;
        auto show = [&](Row_ y) {
            y.resize(t.visible());
            for (auto& v : y) {  // a NaN is a NaN
                if (v.k == K::float4 && std::isnan(v.f)) v.f = std::numeric_limits<float>::quiet_NaN();
                if (v.k == K::float8 && std::isnan(v.d)) v.d = std::numeric_limits<double>::quiet_NaN();
            }
            return Tab::show_row(y);
        };
        for (auto& x : r.rows) a.push_back(show(x));
        for (auto& [k, x] : t.rows) b.push_back(show(x));
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        for (std::size_t i = 0; i < a.size(); ++i) PBT_EQ(a[i], b[i], "a row SQL sees in ", t.d.name);
        PBT_CHECK(e.commit(tx) == status::ok, "commit of a SQL query");
        ++crossed;
    }
    void odd() {
        switch (s.range(0, 4)) {
            case 0: PBT_EQ(raw("", "an empty message").raw, std::string{}, "answer to an empty message"); break;
            case 1: { kq::Request r; r.mutable_scan(); PBT_EQ(raw(r.SerializeAsString(), "Scan").raw, std::string{"not supported yet"}); break; }
            case 2: { kq::Request r; r.mutable_batch(); PBT_EQ(raw(r.SerializeAsString(), "Batch").raw, std::string{"not supported yet"}); break; }
            case 3: PBT_EQ(raw("\xff\xff\xff", "garbage").raw, std::string{"parse error with request body"}); break;
            default: {  // an option of a later version of the protocol
                kq::Request r;
                auto v = static_cast<int>(s.pick({-1, 4, 5, 7, 99}));
                auto* t = someone();
                switch (s.range(0, 4)) {
                    case 0: r.mutable_begin()->mutable_transaction_option()->set_type(static_cast<kt::Type>(v)); break;
                    case 1: r.mutable_begin()->mutable_transaction_option()->set_priority(static_cast<kt::Priority>(v + 1)); break;
                    case 2: r.mutable_commit()->set_notification_type(static_cast<kq::CommitStatus>(v)); r.mutable_commit()->mutable_transaction_handle()->set_system_id(handle(t)); break;
                    case 3: r.mutable_put()->set_type(static_cast<kq::Put::Type>(v)); r.mutable_put()->add_records(); r.mutable_put()->mutable_transaction_handle()->set_system_id(handle(t)); break;
                    default: r.mutable_remove()->set_type(static_cast<kq::Remove::Type>(v)); r.mutable_remove()->add_keys(); r.mutable_remove()->mutable_transaction_handle()->set_system_id(handle(t)); break;
                }
                s.note("an unknown option");
                if (r.has_begin() && r.begin().transaction_option().priority() == 0) break;
                auto a = send(r, "a request with an unknown option");
                PBT_CHECK(!a.ok(), "a request with an unknown option succeeded");
            }
        }
    }
    void step() {
        auto k = s.draw(100);
        if (k < 12 || txs.empty()) begin();
        else if (k < 40) put();
        else if (k < 60) get();
        else if (k < 70) remove();
        else if (k < 78) commit();
        else if (k < 82) rollback();
        else if (k < 86) dispose();
        else if (k < 88) error_info();
        else if (k < 93) sql_insert();
        else if (k < 97) sql_select();
        else odd();
        for (auto& t : tabs) t.check(e, "after a step");
    }
    void finish() {
        for (auto& t : txs) if (!t.ended && !t.gone) undo(t);
        svc.reset();
        store.reset();
        PBT_EQ(static_cast<std::size_t>(fake::st().open_tx), base, "transactions left open by the store");
        PBT_CHECK(!fake::st().misuse, "a handle of the transaction engine was used after its release");
        for (auto& t : tabs) t.check(e, "at the end");
    }
};

PBT_FACET(f_history, "the key-value service and SQL see the same rows", "a row was found and written, a transaction committed, a request refused, and SQL took part", .quick = 24000, .hang_s = 60) {
    World w{s};
    auto n = s.range(1, 90);
    for (i64 i = 0; i < n; ++i) w.step();
    w.finish();
    if (w.gets > 0 && w.puts > 0 && w.commits > 0 && w.refused > 0 && w.crossed > 0) s.nontrivial();
}

// requests damaged in any way: one answer, and the service goes on
PBT_FACET(f_damaged, "damaged requests get one answer and leave the service alive", "a damaged request still had a known kind", .quick = 25000, .hang_s = 60) {
    World w{s};
    for (int i = 0; i < 3; ++i) w.begin();
    bool known = false;
    auto n = s.range(1, 12);
    for (i64 i = 0; i < n; ++i) {
        kq::Request r;
        auto tx = [&](auto* m) { if (!s.chance(8)) m->mutable_transaction_handle()->set_system_id(w.txs.empty() || s.chance(10) ? s.any_u64() : w.txs[s.idx(w.txs.size())].handle); };
        auto ix = [&](auto* m) { if (!s.chance(8)) m->mutable_index()->set_table_name(s.pick({"T0", "T0", "T0", "T1", ""})); };
        auto rec = [&](kp::data::Record* m) {
            auto& t = w.tabs[0];
            for (std::size_t c = 0; c < t.cols.size(); ++c) {
                if (s.chance(10)) continue;
                m->add_names(t.cols[c].name);
                if (s.chance(3)) continue;
                auto* v = m->add_values();
                switch (s.chance(80) ? 0 : s.range(1, 6)) {
                    case 0: to_wire(s, w.cell(t, c), v); break;
                    case 1: v->mutable_decimal_value()->set_unscaled_value(s.bytes(static_cast<std::size_t>(s.range(0, 18)))); v->mutable_decimal_value()->set_exponent(static_cast<std::int32_t>(s.any_u64())); break;
                    case 2: v->set_date_value(static_cast<i64>(s.any_u64())); break;
                    case 3: v->set_time_of_day_value(s.any_u64()); break;
                    case 4: v->mutable_time_point_value()->set_offset_seconds(static_cast<i64>(s.any_u64())); v->mutable_time_point_value()->set_nano_adjustment(static_cast<std::uint32_t>(s.any_u64())); break;
                    case 5: v->mutable_list_value(); break;
                    default: break;
                }
            }
        };
        switch (s.range(0, 6)) {
            case 0: r.mutable_begin(); break;
            case 1: tx(r.mutable_commit()); break;
            case 2: tx(r.mutable_rollback()); break;
            case 3: tx(r.mutable_put()); ix(r.mutable_put()); rec(r.mutable_put()->add_records()); break;
            case 4: tx(r.mutable_get()); ix(r.mutable_get()); rec(r.mutable_get()->add_keys()); break;
            case 5: tx(r.mutable_remove()); ix(r.mutable_remove()); rec(r.mutable_remove()->add_keys()); break;
            default: tx(r.mutable_dispose_transaction()); break;
        }
        auto b = r.SerializeAsString();
        for (i64 k = s.range(0, 3); k > 0 && !b.empty(); --k) {
            auto at = s.idx(b.size());
            switch (s.range(0, 2)) {
                case 0: b[at] = static_cast<char>(s.range(0, 255)); break;
                case 1: b.erase(at, static_cast<std::size_t>(s.range(1, 3))); break;
                default: b.insert(at, 1, static_cast<char>(s.range(0, 255))); break;
            }
        }
        s.note("request x'", hex(b), "'");
        kq::Request again;
        bool kind = again.ParseFromString(b) && again.command_case() != kq::Request::COMMAND_NOT_SET;
        known = known || kind;
        auto a = w.raw(b, "a damaged request");
        if (kind && again.command_case() != kq::Request::kScan && again.command_case() != kq::Request::kBatch) PBT_CHECK(a.r.ParseFromString(a.raw), "an answer that cannot be parsed");
    }
    // whatever was stored can be read by SQL
    for (auto& t : w.tabs) {
        auto x = w.e.begin();
        ++w.base;
        auto r = w.e.exec(x, w.e.select_all(t.d.name));
        PBT_CHECK(r.ok(), "reading ", t.d.name, " with SQL: ", r.what());
    }
    w.svc.reset();
    w.store.reset();
    PBT_EQ(static_cast<std::size_t>(fake::st().open_tx), w.base, "transactions left open by the store");
    PBT_CHECK(!fake::st().misuse, "a handle of the transaction engine was used after its release");
    if (known) s.nontrivial();
}

// several clients of one transaction at the same time
PBT_FACET(f_threads, "concurrent requests get one answer each", "two threads used one transaction", .quick = 1500, .hang_s = 60, .nondet = true, .fuzz = false) {
    World w{s};
    for (int i = 0; i < 3; ++i) w.begin();
    if (w.txs.empty()) return;
    auto threads = static_cast<std::size_t>(s.range(2, 4));
    std::vector<std::vector<std::string>> plan(threads);
    bool shared = false;
    std::map<u64, std::set<std::size_t>> by;
    for (std::size_t k = 0; k < threads; ++k) {
        auto n = s.range(2, 8);
        for (i64 i = 0; i < n; ++i) {
            kq::Request r;
            auto h = w.txs[s.idx(w.txs.size())].handle;
            by[h].insert(k);
            switch (s.draw(10)) {
                case 0: case 1: case 2: case 3: { auto* m = r.mutable_put(); m->mutable_transaction_handle()->set_system_id(h); m->mutable_index()->set_table_name("T0"); w.record(w.tabs[0], true, false, m->add_records()); break; }
                case 4: case 5: case 6: { auto* m = r.mutable_get(); m->mutable_transaction_handle()->set_system_id(h); m->mutable_index()->set_table_name("T0"); w.record(w.tabs[0], false, false, m->add_keys()); break; }
                case 7: r.mutable_commit()->mutable_transaction_handle()->set_system_id(h); r.mutable_commit()->set_auto_dispose(s.flip()); break;
                case 8: r.mutable_rollback()->mutable_transaction_handle()->set_system_id(h); break;
                default: r.mutable_dispose_transaction()->mutable_transaction_handle()->set_system_id(h); break;
            }
            plan[k].push_back(r.SerializeAsString());
        }
    }
    for (auto& [h, who] : by) shared = shared || who.size() > 1;
    std::atomic<std::size_t> ready{0};
    std::vector<std::string> bad(threads);
    std::vector<std::thread> ts;
    for (std::size_t k = 0; k < threads; ++k) ts.emplace_back([&, k] {
        ++ready;
        while (ready < threads) {}
        for (auto& b : plan[k]) {
            auto q = std::make_shared<Request>();
            q->body = b;
            auto p = std::make_shared<Response>();
            try {
                (*w.svc)(q, p);
            } catch (std::exception const& x) { bad[k] = cat("an exception: ", x.what()); }
            kr::Response r;
            if (p->bodies.size() != 1 || p->others != 0) bad[k] = cat(p->bodies.size(), " answers");
            else if (!r.ParseFromString(p->bodies[0])) bad[k] = "an answer that cannot be parsed";
        }
    });
    for (auto& x : ts) x.join();
    for (auto& b : bad) PBT_CHECK(b.empty(), "a thread got ", b);
    w.svc.reset();
    w.store.reset();
    PBT_EQ(static_cast<std::size_t>(fake::st().open_tx), w.base, "transactions left open by the store");
    PBT_CHECK(!fake::st().misuse, "a handle of the transaction engine was used after its release");
    if (shared) s.nontrivial();
}

// values to stored octets and back
PBT_FACET(f_values, "values are stored in the documented form and come back", "at least two columns, one of them of a type with attributes", .quick = 200000) {
    auto n = s.range(1, 4);
    bool key = s.flip();
    std::deque<yugawara::storage::column> cols;
    std::vector<Ty> tys;
    std::vector<V> vals;
    std::deque<kp::data::Value> wire;
    std::vector<ka::column_data> list;
    std::string want;
    bool attr = false;
    for (i64 i = 0; i < n; ++i) {
        Ty t = gen_type(s, false, key);
        t.off = false;
        if (t.k == K::int1 || t.k == K::int2) t.k = K::int4;
        if (t.k == K::octet) t.k = K::boolean;
        if (t.k == K::character && !t.len && !t.varying) t.len = 4;
        attr = attr || t.k == K::character || t.k == K::decimal;
        bool nullable = s.chance(60);
        V v = gen_value(s, t, 30);
        ascii(v);
        if (t.k == K::character) v = stored(t, v);  // padding is up to the caller
        if (nullable && s.chance(25)) v.null = true;
        cols.emplace_back(cat("C", i), tree::tk(t), yugawara::variable::criteria{yugawara::variable::nullity{nullable}});
        wire.emplace_back();
        to_wire(s, v, &wire.back());
        list.emplace_back(&cols.back(), &wire.back());
        tys.push_back(t);
        vals.push_back(v);
        want += reference(t, nullable, (key ? ka::spec_primary_key : ka::spec_value).ordering() == kvs::order::ascending, v);
        s.note(t, nullable ? "" : " not null", " ", v);
    }
    auto& spec = key ? ka::spec_primary_key : ka::spec_value;
    std::size_t size = 0;
    PBT_EQ(static_cast<int>(ka::get_bufsize(spec, list, size)), 0, "size of the octets");
    PBT_EQ(size, want.size(), "number of octets");
    std::string buf(size, '\x55');
    kvs::writable_stream out{buf.data(), buf.size()};
    PBT_EQ(static_cast<int>(ka::serialize(spec, list, out)), 0, "serializing");
    PBT_EQ(out.size(), want.size(), "octets written");
    PBT_EQ(hex(buf), hex(want), "octets written");
    kvs::readable_stream in{buf.data(), buf.size()};
    for (std::size_t i = 0; i < cols.size(); ++i) {
        kp::data::Value v;
        PBT_EQ(static_cast<int>(ka::deserialize(spec, cols[i], in, &v)), 0, "deserializing column ", i);
        auto got = from_wire(tys[i], v, cat("column ", i));
        PBT_CHECK(equal(got, stored(tys[i], vals[i])), "column ", i, " of type ", tys[i], " came back as ", got, " for ", vals[i]);
    }
    if (n > 1 && attr) s.nontrivial();
}
}  // namespace
