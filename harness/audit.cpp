// P32: the records of the audit log, kept in memory, against what the sessions asked and were answered.
#include "service.inc"
#include <altimeter/event/constants.h>
#include <altimeter/event/event_logger.h>
#include <altimeter/logger.h>
namespace {
namespace ev = altimeter::event;
using altimeter::log_item;
using altimeter::logger;

struct Rec {
    log_item const* i;
    [[nodiscard]] log_item::entry const* find(std::string_view k) const {
        log_item::entry const* r = nullptr;
        for (auto& e : i->items())
            if (e.key == k) { PBT_CHECK(r == nullptr, "audit log: ", k, " given twice in ", i->type()); r = &e; }
        return r;
    }
    [[nodiscard]] std::string text(std::string_view k) const {
        auto* e = find(k);
        PBT_CHECK(e != nullptr && e->is_text, "audit log: no ", k, " in ", i->type());
        return e->text;
    }
    [[nodiscard]] std::int64_t number(std::string_view k) const {
        auto* e = find(k);
        PBT_CHECK(e != nullptr && !e->is_text, "audit log: no ", k, " in ", i->type());
        return e->number;
    }
};
struct Audit {
    World& w;
    std::uint32_t level;
    bool over;
    std::size_t at = 0;
    struct Tx { int ends = 0; std::int64_t result = 0, type = 0; std::string label{}; };
    struct St { std::string tx, job, sql, params, label; std::int64_t type; int explained = 0; };
    std::map<std::string, Tx> txs{};
    std::set<std::string> jobs{};
    std::vector<Rec> ends{};   // of the last request
    std::vector<St> starts{};  // of the last request
    int failed = 0, succeeded = 0;

    Audit(World& world, std::uint32_t l, bool o) : w(world), level(l), over(o) {
        w.after = [this](std::optional<std::size_t> sess) { scan(sess); };
        w.executed = [this](std::optional<std::size_t> ti, bool query, Answer const& a, Q q, std::string const& text, bool given_up) { executed(ti, query, a, q, text, given_up); };
    }
    void common(Rec const& r, std::optional<std::size_t> sess) {
        auto what = r.i->type();
        PBT_EQ(std::string{r.i->category()}, std::string{ev::category}, what, ": category");
        PBT_EQ(r.text(ev::item::dbname), "fake", what, ": database");
        PBT_EQ(r.text(ev::item::instance_id), "fake", what, ": instance");
        PBT_EQ(r.number(ev::item::pid), 1, what, ": process");
        if (what == ev::type::tx_end) {  // a commit may end during a request of another session
            sess = std::nullopt;
            for (std::size_t i = 0; i < w.sessions.size(); ++i) if (r.number(ev::item::session_id) == static_cast<std::int64_t>(w.sessions[i].id)) sess = i;
            PBT_CHECK(sess.has_value(), what, ": session ", r.number(ev::item::session_id));
        }
        if (!sess) return;
        auto& x = w.sessions[*sess];
        PBT_EQ(r.number(ev::item::session_id), static_cast<std::int64_t>(x.id), what, ": session");
        auto same = [&](std::string_view k, std::string const& v) {
            auto* e = r.find(k);
            if (v.empty()) PBT_CHECK(e == nullptr, what, ": ", k, " of a session without it");
            else PBT_EQ(e ? e->text : std::string{}, v, what, ": ", k);
        };
        same(ev::item::session_label, x.info.label_);
        same(ev::item::application_name, x.info.application_);
        same(ev::item::remote_host, x.info.remote_);
        same(ev::item::user, x.alice ? "alice" : x.info.name_.value_or(""));
    }
    void scan(std::optional<std::size_t> sess) {
        std::map<std::string, St> open;
        ends.clear();
        starts.clear();
        auto& all = logger::records;
        for (; at < all.size(); ++at) {
            Rec r{&all[at]};
            std::string ty{r.i->type()};
            common(r, sess);
            auto tx = r.text(ev::item::tx_id);
            PBT_CHECK(!tx.empty(), ty, ": no transaction id");
            auto label = r.text(ev::item::tx_label);
            auto type = r.number(ev::item::tx_type);
            auto known = txs.find(tx);
            if (ty == ev::type::tx_start) {
                PBT_EQ(r.i->level(), ev::level::transaction, ty, ": level");
                PBT_CHECK(known == txs.end(), ty, ": transaction ", tx, " starts a second time");
                auto& x = txs[tx];
                x.label = label;
                x.type = type;
                continue;
            }
            if (level >= ev::level::transaction) {
                PBT_CHECK(known != txs.end(), ty, ": transaction ", tx, " did not start");
                PBT_EQ(label, known->second.label, ty, ": label of the transaction");
                PBT_EQ(type, known->second.type, ty, ": type of the transaction");
            }
            if (ty == ev::type::tx_end) {
                PBT_EQ(r.i->level(), ev::level::transaction, ty, ": level");
                auto& x = known->second;
                ++x.ends;
                x.result = r.number(ev::item::result);
                PBT_EQ(x.ends, 1, ty, ": ends of transaction ", tx);
                PBT_CHECK(x.result == 1 || x.result == 2, ty, ": result ", x.result);
                PBT_CHECK(r.number(ev::item::duration_time) >= 0, ty, ": duration");
                continue;
            }
            auto job = r.text(ev::item::job_id);
            if (ty == ev::type::stmt_start) {
                PBT_EQ(r.i->level(), ev::level::statement, ty, ": level");
                PBT_CHECK(jobs.insert(job).second, ty, ": job ", job, " starts a second time");
                open[job] = St{tx, job, r.text(ev::item::statement), r.text(ev::item::parameter), label, type};
                continue;
            }
            auto o = open.find(job);
            if (level >= ev::level::statement) {
                PBT_CHECK(o != open.end(), ty, ": statement ", job, " did not start, or ended already");
                PBT_EQ(tx, o->second.tx, ty, ": transaction");
            }
            if (ty == ev::type::stmt_explain) {
                PBT_EQ(r.i->level(), ev::level::min, ty, ": level");
                PBT_CHECK(!r.text(ev::item::data).empty(), ty, ": no plan");
                if (o != open.end()) PBT_EQ(++o->second.explained, 1, ty, ": plans of a statement");
                continue;
            }
            PBT_EQ(ty, std::string{ev::type::stmt_end}, "type of record");
            PBT_EQ(r.i->level(), over ? ev::level::min : ev::level::statement, ty, ": level");
            if (o != open.end()) {
                PBT_EQ(r.text(ev::item::statement), o->second.sql, ty, ": statement");
                PBT_EQ(r.text(ev::item::parameter), o->second.params, ty, ": parameters");
                if (level >= ev::level::min && sess) {
                    auto& v = w.sessions[*sess].vars.values_;
                    auto it = v.find("sql.plan_recording");
                    bool want = it == v.end() ? w.e.cfg->plan_recording() : std::get<bool>(it->second);
                    PBT_EQ(o->second.explained, want ? 1 : 0, ty, ": plans recorded");
                }
                starts.push_back(o->second);
                open.erase(o);
            } else PBT_CHECK(jobs.insert(job).second, ty, ": job ", job, " ends a second time");
            auto res = r.number(ev::item::result);
            auto code = r.text(ev::item::state_code);
            PBT_CHECK(res == 1 || res == 2, ty, ": result ", res);
            PBT_CHECK(code.empty() == (res == 1), ty, ": result ", res, " with state code \"", code, "\"");
            PBT_CHECK(r.number(ev::item::duration_time) >= 0, ty, ": duration");
            ends.push_back(r);
        }
        for (auto& [job, x] : open) PBT_CHECK(false, "audit log: the statement ", x.sql, " of transaction ", x.tx, " has a start and no end");
        if (level < ev::level::transaction) PBT_CHECK(txs.empty(), "audit log: transactions recorded below their level");
        if (level < ev::level::statement && !over) PBT_CHECK(ends.empty(), "audit log: statements recorded below their level");
    }
    void executed(std::optional<std::size_t> ti, bool query, Answer const& a, Q q, std::string const& text, bool given_up) {
        bool logged = level >= ev::level::statement || over;
        PBT_CHECK(ends.size() <= 1, "audit log: ", ends.size(), " statements for one request");
        if (!logged) return;
        if (a.ok()) PBT_EQ(ends.size(), 1U, "audit log: records of a statement that succeeded");
        if (ends.empty()) return;
        auto& r = ends[0];
        PBT_CHECK(ti.has_value(), "audit log: a statement of an unknown transaction");
        auto& x = w.txs[*ti];
        PBT_EQ(r.text(ev::item::tx_id), x.id, "stmt_end: transaction");
        PBT_EQ(r.text(ev::item::tx_label), x.label, "stmt_end: label");
        PBT_EQ(r.number(ev::item::tx_type), x.readonly ? 3 : x.longtx ? 2 : 1, "stmt_end: type of transaction");
        PBT_EQ(r.text(ev::item::statement), text, "stmt_end: statement");
        auto res = r.number(ev::item::result);
        if (given_up && res == 1 && !a.ok()) return;  // the rows could not be passed on once the statement was done
        PBT_EQ(res, a.ok() ? 1 : 2, "stmt_end: result of a request answered by ", a.what());
        if (a.ok()) {
            ++succeeded;
            std::int64_t inserted = !query && (q == Q::insert || q == Q::insert_vars) ? 1 : 0;
            PBT_EQ(r.number(ev::item::inserted), inserted, "stmt_end: inserted rows");
            for (auto k : {ev::item::updated, ev::item::deleted, ev::item::merged}) PBT_EQ(r.number(k), 0, "stmt_end: ", k);
            if (query && !given_up) PBT_EQ(r.number(ev::item::fetched), q == Q::select ? static_cast<std::int64_t>(w.t.rows.size()) : 1, "stmt_end: fetched rows");
        } else {
            ++failed;
            auto code = r.text(ev::item::state_code);
            PBT_CHECK(code.size() == 9 && code.compare(0, 4, "SQL-") == 0, "stmt_end: state code ", code);
            auto n = std::stoi(code.substr(4));
            if (a.err) PBT_EQ(static_cast<int>(api::impl::map_error(static_cast<error_code>(n))), static_cast<int>(a.err->code()), "stmt_end: state code ", code, " of a request answered by ", a.what());
            else PBT_CHECK(World::is(a, static_cast<error_code>(n)), "stmt_end: state code ", code, " of a request answered by ", a.what());
        }
    }
    void finish() {
        if (level < ev::level::transaction) return;
        PBT_EQ(txs.size(), w.txs.size(), "audit log: transactions");
        for (auto& x : w.txs) {
            auto it = txs.find(x.id);
            PBT_CHECK(it != txs.end(), "audit log: transaction ", x.id, " did not start");
            auto& r = it->second;
            PBT_EQ(r.label, x.label, "tx_start: label");
            PBT_EQ(r.type, x.readonly ? 3 : x.longtx ? 2 : 1, "tx_start: type");
            if (x.st == TxM::committed) {
                PBT_EQ(r.ends, 1, "audit log: ends of the committed transaction ", x.id);
                PBT_EQ(r.result, 1, "audit log: result of the committed transaction ", x.id);
            } else {
                if (x.ended) PBT_EQ(r.ends, 1, "audit log: ends of the aborted transaction ", x.id);
                if (r.ends > 0) PBT_EQ(r.result, 2, "audit log: result of the aborted transaction ", x.id);
            }
        }
    }
};

PBT_FACET(f_audit, "the audit log agrees with the requests and their answers", "statements were recorded as done and as failed and a transaction committed", .quick = 30000, .hang_s = 60) {
    logger::records.clear();
    ev::event_logger::threshold_ns = -1;
    auto level = s.chance(75) ? ev::level::statement : s.pick({0U, ev::level::min, ev::level::transaction});
    bool over = s.chance(25);
    World w{s};
    logger::records.clear();
    logger::threshold = level;
    ev::event_logger::threshold_ns = over ? 0 : -1;
    w.e.cfg->plan_recording(s.flip());
    for (auto& x : w.sessions) {
        if (s.flip()) x.vars.values_["sql.plan_recording"] = s.flip();
        if (s.flip()) x.info.label_ = "session label";
        if (s.flip()) x.info.application_ = "app";
        if (s.flip()) x.info.remote_ = "ipc:1";
        if (s.flip()) x.info.name_ = "root";
    }
    s.note("log level ", level, over ? ", every statement slow" : "");
    Audit a{w, level, over};
    auto n = s.range(1, 40);
    for (i64 i = 0; i < n; ++i) w.step();
    w.finish();
    a.finish();
    if (a.succeeded > 0 && a.failed > 0 && w.commits > 0) s.nontrivial();
}
}  // namespace
