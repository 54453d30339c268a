// P23: sequences. Oracle: 128 bit arithmetic on the definition, and a model of which (version, value) is in memory and which is durable.
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>
#include <takatori/util/maybe_shared_ptr.h>
#include <yugawara/storage/configurable_provider.h>
#include <yugawara/storage/sequence.h>
#include <jogasaki/configuration.h>
#include <jogasaki/constants.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/executor/sequence/exception.h>
#include <jogasaki/executor/sequence/info.h>
#include <jogasaki/executor/sequence/manager.h>
#include <jogasaki/executor/sequence/metadata_store.h>
#include <jogasaki/executor/sequence/sequence.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/kvs/transaction.h>
#include "pbt.h"
using namespace jogasaki;
using pbt::Src;
namespace sq = executor::sequence;
using i128 = __int128;
#include "fake_sharksfin.inc"
#include "fake_db.inc"

namespace {
struct Def {
    std::int64_t init, inc, min, max;
    bool cycle;
};
Def gen_def(Src& s) {
    constexpr std::int64_t lo = std::numeric_limits<std::int64_t>::min(), hi = std::numeric_limits<std::int64_t>::max();
    Def d{};
    switch (s.draw(5)) {
        case 0: d.min = 1, d.max = hi; break;
        case 1: d.min = lo, d.max = hi; break;
        case 2: d.min = lo, d.max = -1; break;
        case 3: {
            auto a = s.any_int<std::int64_t>(), b = s.any_int<std::int64_t>();
            d.min = std::min(a, b), d.max = std::max(a, b);
            break;
        }
        default: d.min = s.range(-20, 20), d.max = d.min + s.range(0, 30); break;
    }
    auto between = [&]() {
        auto x = s.chance(50) ? s.range(-20, 20) : s.any_int<std::int64_t>();
        return std::min(d.max, std::max(d.min, x));
    };
    switch (s.draw(4)) {
        case 0: d.init = d.min; break;
        case 1: d.init = d.max; break;
        default: d.init = between();
    }
    d.inc = s.chance(60) ? s.range(-4, 4) : s.chance(50) ? s.pick<std::int64_t>({lo, lo + 1, hi, hi / 2, -(hi / 3), 1L << 62}) : s.any_int<std::int64_t>();
    if (d.inc == 0) d.inc = 1;
    d.cycle = s.flip();
    return d;
}
std::string show(Def const& d) {
    return "init " + std::to_string(d.init) + " inc " + std::to_string(d.inc) + " min " + std::to_string(d.min) + " max " + std::to_string(d.max) + (d.cycle ? " cycle" : "");
}
enum class Err { none, upper, lower };
struct Mem { std::size_t version{1}; std::int64_t value{}; };
Err step(Def const& d, Mem& m, std::int64_t& out) {
    if (m.version == 1) {
        m = {2, d.init};
        out = d.init;
        return Err::none;
    }
    auto v = static_cast<i128>(m.value) + d.inc;
    if (d.inc > 0 && v > d.max) {
        if (!d.cycle) return Err::upper;
        v = d.min;
    } else if (d.inc < 0 && v < d.min) {
        if (!d.cycle) return Err::lower;
        v = d.max;
    }
    m = {m.version + 1, static_cast<std::int64_t>(v)};
    out = m.value;
    return Err::none;
}
void check_next(Src&, Def const& d, Mem& m, takatori::util::either<sq::sequence_error, sequence_value> const& r, std::string const& what) {
    std::int64_t want{};
    auto e = step(d, m, want);
    if (e == Err::none) {
        PBT_CHECK(static_cast<bool>(r), what + ": " + show(d) + ": refused, but the next value " + std::to_string(want) + " is within the range");
        PBT_CHECK(r.value() == want, what + ": " + show(d) + ": gave " + std::to_string(r.value()) + " instead of " + std::to_string(want));
    } else {
        PBT_CHECK(!r, what + ": " + show(d) + ": gave " + std::to_string(r ? r.value() : 0) + " beyond the range");
        PBT_CHECK(r.error() == (e == Err::upper ? sq::sequence_error::out_of_upper_bound : sq::sequence_error::out_of_lower_bound), what + ": " + show(d) + ": the wrong end of the range was reported");
    }
}
using Provider = yugawara::storage::configurable_provider;
std::shared_ptr<yugawara::storage::sequence> decl(std::size_t id, std::string name, Def const& d) {
    return std::make_shared<yugawara::storage::sequence>(id, std::move(name), d.init, d.inc, d.min, d.max, d.cycle);
}
sq::sequence* reg(sq::manager& m, kvs::transaction* tx, std::size_t id, Def const& d) {
    return m.register_sequence(tx, id, "s" + std::to_string(id), d.init, d.inc, d.min, d.max, d.cycle);
}

PBT_FACET(next, "values", "the range was reached, left or stepped over, or 64 bits overflow on the way", .quick = 60000) {
    Db db;
    sq::manager mgr{*db};
    auto tx = db->create_transaction();
    auto d = gen_def(s);
    auto* q = reg(mgr, tx.get(), 5, d);
    PBT_CHECK(q != nullptr, "a registered sequence was not returned");
    PBT_CHECK(mgr.find_sequence(5) == q, "a registered sequence is not found");
    Mem m;
    bool hard = false;
    for (int i = 0, n = static_cast<int>(s.size(40)); i < n; ++i) {
        auto v = static_cast<i128>(m.value) + d.inc;
        if (m.version > 1 && (v > d.max || v < d.min)) hard = true;
        check_next(s, d, m, q->next(*tx), "call " + std::to_string(i + 1));
        auto g = q->get();
        PBT_CHECK(g.version_ == m.version && (m.version == 1 || g.value_ == m.value), show(d) + ": the current value differs from the last one given");
    }
    if (hard || static_cast<i128>(d.max) - d.init > std::numeric_limits<std::int64_t>::max()) s.nontrivial();
    PBT_CHECK(mgr.notify_updates(*tx), "notify_updates failed");
    PBT_CHECK(tx->commit() == status::ok, "commit failed");
}

// transactions open and interleaved, commits, aborts, restarts, removals
PBT_FACET(history, "life", "a value taken by an aborted or unfinished transaction, then a restart", .quick = 25000) {
    Db db;
    struct Sq { Def d; Mem mem; std::optional<Mem> durable; };
    std::map<std::size_t, Sq> seqs;
    struct Tx { std::unique_ptr<kvs::transaction> t; std::map<std::size_t, Mem> put; std::set<std::size_t> used; };
    std::vector<Tx> txs;
    auto mgr = std::make_unique<sq::manager>(*db);
    std::set<std::size_t> persisted;
    bool lost = false, restarted_after_loss = false;
    auto finish = [&](std::size_t i, bool commit) {
        auto& t = txs[i];
        PBT_CHECK(mgr->notify_updates(*t.t), "notify_updates failed");
        for (auto id : t.used) if (seqs.count(id)) t.put[id] = seqs[id].mem;
        if (commit) {
            PBT_CHECK(t.t->commit() == status::ok, "commit failed");
            for (auto& [id, m] : t.put) {
                if (!seqs.count(id)) continue;
                auto& q = seqs[id];
                if (!q.durable || q.durable->version < m.version) q.durable = m;
            }
        } else {
            if (!t.put.empty()) lost = true;
            PBT_CHECK(t.t->abort_transaction() == status::ok, "abort failed");
        }
        txs.erase(txs.begin() + static_cast<long>(i));
    };
    auto n = static_cast<int>(s.size(60));
    for (int step_no = 0; step_no < n; ++step_no) {
        switch (s.draw(12)) {
            case 0: case 1: {  // define
                if (seqs.size() >= 5) break;
                s.note("define");
                auto tx = db->create_transaction();
                sq::metadata_store ms{*tx};
                std::size_t id{};
                ms.find_next_empty_def_id(id);
                PBT_CHECK(!persisted.count(id), "the definition id " + std::to_string(id) + " offered is in use");
                if (s.chance(30)) { id += s.size(1000); if (persisted.count(id)) break; }
                auto d = gen_def(s);
                auto* q = reg(*mgr, tx.get(), id, d);
                PBT_CHECK(q && q->info().definition_id() == id && q->info().name() == "s" + std::to_string(id), "the registered sequence has the wrong identity");
                PBT_CHECK(tx->commit() == status::ok, "commit failed");
                seqs[id] = Sq{d, {}, {}};
                persisted.insert(id);
                break;
            }
            case 2: case 3:
                if (txs.size() < 4) txs.push_back(Tx{db->create_transaction(), {}, {}});
                break;
            case 4: case 5: case 6: case 7: {  // take values
                if (txs.empty() || seqs.empty()) break;
                auto& t = txs[s.idx(txs.size())];
                auto it = std::next(seqs.begin(), static_cast<long>(s.idx(seqs.size())));
                auto* q = mgr->find_sequence(it->first);
                PBT_CHECK(q != nullptr, "a defined sequence is not found");
                for (auto k = s.size(4) + 1; k > 0; --k) check_next(s, it->second.d, it->second.mem, q->next(*t.t), "sequence " + std::to_string(it->first));
                t.used.insert(it->first);
                if (s.chance(70)) {
                    PBT_CHECK(mgr->notify_updates(*t.t), "notify_updates failed");
                    for (auto id : t.used) if (seqs.count(id)) t.put[id] = seqs[id].mem;
                    t.used.clear();
                }
                break;
            }
            case 8:
                if (!txs.empty()) finish(s.idx(txs.size()), true);
                break;
            case 9:
                if (!txs.empty()) finish(s.idx(txs.size()), false);
                break;
            case 10: {  // stop, cleanly or not, and start again
                bool clean = s.flip();
                s.note("restart");
                while (!txs.empty()) {
                    if (clean) finish(txs.size() - 1, true);
                    else {
                        if (!txs.back().put.empty() || !txs.back().used.empty()) lost = true;
                        txs.pop_back();
                    }
                }
                mgr = std::make_unique<sq::manager>(*db);
                auto tx = db->create_transaction();
                auto loaded = mgr->load_id_map(s.flip() ? tx.get() : nullptr);
                PBT_CHECK(loaded == persisted.size(), std::to_string(loaded) + " sequences were loaded instead of " + std::to_string(persisted.size()));
                auto prov = std::make_shared<Provider>();
                for (auto& [id, q] : seqs) prov->add_sequence(decl(id, "s" + std::to_string(id), q.d));
                mgr->register_sequences(tx.get(), prov, false);
                PBT_CHECK(tx->commit() == status::ok, "commit failed");
                for (auto& [id, q] : seqs) {
                    q.mem = q.durable ? *q.durable : Mem{};
                    auto* p = mgr->find_sequence(id);
                    PBT_CHECK(p && p->get().version_ == q.mem.version && (q.mem.version == 1 || p->get().value_ == q.mem.value),
                        "sequence " + std::to_string(id) + " did not come back as the last durable value");
                }
                if (lost) restarted_after_loss = true;
                break;
            }
            default: {  // remove
                if (seqs.empty()) break;
                s.note("remove");
                while (!txs.empty()) finish(txs.size() - 1, s.flip());
                auto it = std::next(seqs.begin(), static_cast<long>(s.idx(seqs.size())));
                auto tx = db->create_transaction();
                PBT_CHECK(mgr->remove_sequence(it->first, tx.get()), "a defined sequence could not be removed");
                PBT_CHECK(tx->commit() == status::ok, "commit failed");
                PBT_CHECK(mgr->find_sequence(it->first) == nullptr, "a removed sequence is still found");
                PBT_CHECK(!mgr->remove_sequence(it->first, tx.get()), "a sequence was removed twice");
                persisted.erase(it->first);
                seqs.erase(it);
                break;
            }
        }
        auto tx = db->create_transaction();
        std::map<std::size_t, std::size_t> map;
        sq::metadata_store ms{*tx};
        ms.scan([&](std::size_t a, std::size_t b) { map[a] = b; });
        std::set<std::size_t> ids, distinct;
        for (auto& [a, b] : map) { ids.insert(a); distinct.insert(b); }
        PBT_CHECK(ids == persisted && ms.size() == ids.size(), "the table of sequences does not list the sequences defined");
        PBT_CHECK(distinct.size() == ids.size(), "two sequences share one engine sequence");
        (void)tx->commit();
    }
    while (!txs.empty()) finish(0, true);
    PBT_CHECK(!fake::st().misuse, fake::st().misuse_what);
    if (restarted_after_loss) s.nontrivial();
}

PBT_FACET(parallel, "threads", "several threads took values of one sequence", .quick = 400, .hang_s = 60, .nondet = true, .fuzz = false) {
    Db db;
    sq::manager mgr{*db};
    auto tx0 = db->create_transaction();
    int ns = static_cast<int>(s.range(1, 3)), nt = static_cast<int>(s.range(2, 6)), per = static_cast<int>(s.range(1, 300));
    std::int64_t inc = s.flip() ? s.range(1, 3) : -s.range(1, 3);
    Def d{0, inc, std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max(), false};
    for (int i = 0; i < ns; ++i) reg(mgr, tx0.get(), static_cast<std::size_t>(i), d);
    PBT_CHECK(tx0->commit() == status::ok, "commit failed");
    std::vector<std::vector<std::vector<std::int64_t>>> got(static_cast<std::size_t>(nt), std::vector<std::vector<std::int64_t>>(static_cast<std::size_t>(ns)));
    std::vector<std::thread> ts;
    std::atomic_bool failed{false};
    bool each = s.flip();
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t]() {
            auto tx = db->create_transaction();
            for (int k = 0; k < per; ++k) {
                auto i = static_cast<std::size_t>((k + t) % ns);
                auto r = mgr.find_sequence(i)->next(*tx);
                if (!r) { failed = true; break; }
                got[static_cast<std::size_t>(t)][i].push_back(r.value());
                if (each) mgr.notify_updates(*tx);
            }
            if (!mgr.notify_updates(*tx) || tx->commit() != status::ok) failed = true;
        });
    for (auto& t : ts) t.join();
    PBT_CHECK(!failed.load(), "taking a value failed");
    for (int i = 0; i < ns; ++i) {
        std::set<std::int64_t> all;
        std::size_t total = 0;
        for (auto& g : got) {
            auto& v = g[static_cast<std::size_t>(i)];
            total += v.size();
            all.insert(v.begin(), v.end());
            for (std::size_t k = 1; k < v.size(); ++k)
                PBT_CHECK(inc > 0 ? v[k] >= v[k - 1] + inc : v[k] <= v[k - 1] + inc, "one thread saw the sequence go " + std::to_string(v[k - 1]) + " then " + std::to_string(v[k]));
        }
        PBT_CHECK(all.size() == total, std::to_string(total - all.size()) + " of " + std::to_string(total) + " values were given twice");
        if (total == 0) continue;
        PBT_CHECK((inc > 0 ? *all.rbegin() : *all.begin()) == inc * static_cast<std::int64_t>(total - 1), "values were skipped");
    }
    sq::manager again{*db};
    auto tx = db->create_transaction();
    again.load_id_map(tx.get());
    for (int i = 0; i < ns; ++i) {
        auto* q = reg(again, tx.get(), static_cast<std::size_t>(i), d);
        PBT_CHECK(q->get() == mgr.find_sequence(static_cast<std::size_t>(i))->get(), "after all transactions committed, a restart loses values");
    }
    s.nontrivial();
}

// the engine fails somewhere: the failure is reported as its status, and what was durable stays
PBT_FACET(faults, "faults", "an injected failure was delivered", .quick = 20000) {
    Db db;
    auto mgr = std::make_unique<sq::manager>(*db);
    auto prov = std::make_shared<Provider>();
    std::vector<Def> defs;
    auto n = static_cast<std::size_t>(s.range(1, 3));
    {
        auto tx = db->create_transaction();
        for (std::size_t i = 0; i < n; ++i) {
            defs.push_back(gen_def(s));
            prov->add_sequence(decl(i, "s" + std::to_string(i), defs[i]));
            reg(*mgr, tx.get(), i, defs[i]);
        }
        (void)tx->commit();
    }
    std::vector<Mem> mem(n), durable(n);
    {
        auto tx = db->create_transaction();
        for (std::size_t i = 0; i < n; ++i)
            for (auto k = s.size(3); k > 0; --k) check_next(s, defs[i], mem[i], mgr->find_sequence(i)->next(*tx), "before the fault");
        PBT_CHECK(mgr->notify_updates(*tx), "notify_updates failed");
        PBT_CHECK(tx->commit() == status::ok, "commit failed");
        durable = mem;
    }
    auto code = s.pick<sharksfin::StatusCode>({sharksfin::StatusCode::ERR_IO_ERROR, sharksfin::StatusCode::ERR_ABORTED_RETRYABLE, sharksfin::StatusCode::ERR_RESOURCE_LIMIT_REACHED, sharksfin::StatusCode::ERR_UNKNOWN, sharksfin::StatusCode::ERR_TIME_OUT});
    auto expect = [](sharksfin::StatusCode c) {
        switch (c) {
            case sharksfin::StatusCode::ERR_IO_ERROR: return status::err_io_error;
            case sharksfin::StatusCode::ERR_ABORTED_RETRYABLE: return status::err_serialization_failure;
            case sharksfin::StatusCode::ERR_RESOURCE_LIMIT_REACHED: return status::err_resource_limit_reached;
            case sharksfin::StatusCode::ERR_TIME_OUT: return status::err_time_out;
            default: return status::err_unknown;
        }
    }(code);
    auto fault = [&](std::string op, long at) { fake::st().faults = {fake::Fault{op, at, code}}; };
    auto run = [&](std::string const& what, std::string const& op, auto&& f) {
        bool thrown = false;
        try { f(); } catch (sq::exception const& e) {
            thrown = true;
            PBT_CHECK(e.get_status() == expect, what + ": failure of " + op + " was reported as " + std::string{to_string_view(e.get_status())});
        }
        bool delivered = !fake::st().delivered.empty();
        PBT_CHECK(thrown == delivered, what + (delivered ? ": a failure of " + op + " was ignored" : ": failed though nothing went wrong"));
        fake::st().faults.clear();
        fake::st().delivered.clear();
        if (delivered) s.nontrivial();
        s.label(op + (delivered ? " delivered" : " not reached"));
        return delivered;
    };
    switch (s.draw(4)) {
        case 0: {  // start
            auto op = s.pick<std::string>({"content_scan", "iterator_next", "iterator_get_key", "iterator_get_value", "sequence_get", "content_put"});
            fault(op, s.range(0, 4));
            mgr = std::make_unique<sq::manager>(*db);
            auto tx = db->create_transaction();
            run("restart", op, [&]() {
                mgr->load_id_map(tx.get());
                mgr->register_sequences(tx.get(), prov, false);
            });
            break;
        }
        case 1: {  // define
            auto op = s.pick<std::string>({"sequence_create", "sequence_get", "content_put"});
            fault(op, s.range(0, 2));
            auto tx = db->create_transaction();
            auto d = gen_def(s);
            bool failed = run("define", op, [&]() { reg(*mgr, tx.get(), n, d); });
            if (!failed) PBT_CHECK(mgr->find_sequence(n) != nullptr, "a defined sequence is not found");
            (void)tx->abort_transaction();
            if (failed) PBT_CHECK(op != "sequence_create" || mgr->find_sequence(n) == nullptr, "a sequence that could not be created is found");
            // trying again, or defining another one, works
            auto id = failed && s.flip() ? n : n + 1;
            auto tx2 = db->create_transaction();
            auto* q = reg(*mgr, tx2.get(), id, d);
            PBT_CHECK(q && mgr->find_sequence(id) == q, "defining after a failure failed");
            PBT_CHECK(mgr->notify_updates(*tx2), "notify_updates failed");
            Mem m;
            check_next(s, d, m, q->next(*tx2), "after the failure");
            PBT_CHECK(mgr->notify_updates(*tx2), "notify_updates failed");
            std::map<std::size_t, std::size_t> map;
            sq::metadata_store{*tx2}.scan([&](std::size_t a, std::size_t b) { map[a] = b; });
            std::set<std::size_t> distinct;
            for (auto& [a, b] : map) {
                PBT_CHECK(fake::st().seq.count(b), "after a failed definition the table of sequences maps " + std::to_string(a) + " to " + std::to_string(b) + ", which the engine never created");
                PBT_CHECK(distinct.insert(b).second, "after a failed definition two sequences share one engine sequence");
            }
            PBT_CHECK(tx2->commit() == status::ok, "commit failed");
            break;
        }
        case 2: {  // take a value
            fault("sequence_put", s.range(0, 1));
            auto tx = db->create_transaction();
            for (std::size_t i = 0; i < n; ++i) check_next(s, defs[i], mem[i], mgr->find_sequence(i)->next(*tx), "at the fault");
            bool failed = run("notify_updates", "sequence_put", [&]() { PBT_CHECK(mgr->notify_updates(*tx), "notify_updates failed"); });
            if (failed) {
                PBT_CHECK(mgr->notify_updates(*tx), "notify_updates with nothing pending failed");
                (void)tx->abort_transaction();
            } else {
                PBT_CHECK(tx->commit() == status::ok, "commit failed");
                durable = mem;
            }
            break;
        }
        default: {  // remove
            auto op = s.pick<std::string>({"sequence_delete", "content_delete"});
            fault(op, 0);
            auto tx = db->create_transaction();
            auto k = s.idx(n);
            bool failed = run("remove", op, [&]() { mgr->remove_sequence(k, tx.get()); });
            PBT_CHECK(failed, "a failure of " + op + " was not reached");
            (void)tx->abort_transaction();
            if (op == "sequence_delete") PBT_CHECK(mgr->find_sequence(k) != nullptr, "a sequence that could not be removed is gone");
            else return;
        }
    }
    // the next start sees what was durable
    mgr = std::make_unique<sq::manager>(*db);
    auto tx = db->create_transaction();
    mgr->load_id_map(tx.get());
    mgr->register_sequences(tx.get(), prov, false);
    PBT_CHECK(tx->commit() == status::ok, "commit failed");
    for (std::size_t i = 0; i < n; ++i) {
        auto g = mgr->find_sequence(i)->get();
        PBT_CHECK(g.version_ == durable[i].version && (durable[i].version == 1 || g.value_ == durable[i].value), "sequence " + std::to_string(i) + " did not come back as the last durable value");
    }
    // one that the table does not list is an error by name
    auto more = std::make_shared<Provider>();
    more->add_sequence(decl(77, "unlisted", defs[0]));
    bool thrown = false;
    auto tx2 = db->create_transaction();
    try { mgr->register_sequences(tx2.get(), more, false); } catch (sq::exception const& e) {
        thrown = true;
        PBT_CHECK(e.get_status() == status::err_not_found && std::string{e.what()}.find("unlisted") != std::string::npos, "an unlisted sequence is reported without its name");
    }
    PBT_CHECK(thrown && mgr->find_sequence(77) == nullptr, "a sequence the table does not list was accepted");
}
}  // namespace
