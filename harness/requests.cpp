// Key-value requests, per-request statistics and timers.
#include <jogasaki/api/kvsservice/status_message.h>
#include <jogasaki/api/kvsservice/transaction_option.h>
#include <jogasaki/api/kvsservice/transaction_state.h>
#include <jogasaki/api/kvsservice/mapped_record.h>
#include <jogasaki/executor/batch/batch_executor_option.h>
#include <jogasaki/executor/io/record_channel_stats.h>
#include <jogasaki/request_statistics.h>
#include <jogasaki/utils/performance_tools.h>
#include <jogasaki/utils/watch.h>

#include <map>
#include <optional>
#include <thread>

#include "pbt.h"

using pbt::Src;
namespace kv = jogasaki::api::kvsservice;
namespace kd = tateyama::proto::kvs::data;
using namespace std::chrono_literals;

namespace {

void gen_value(Src& s, kd::Value& v) {
    switch (s.draw(9)) {
        case 0: break;  // null is the unset value
        case 1: v.set_boolean_value(s.flip()); break;
        case 2: v.set_int4_value(s.any_int<std::int32_t>()); break;
        case 3: v.set_int8_value(s.any_int<std::int64_t>()); break;
        case 4: v.set_float4_value(s.any_float(false)); break;
        case 5: v.set_float8_value(s.any_double(false)); break;
        case 6: v.set_character_value(s.utf8(5)); break;
        case 7: v.set_octet_value(s.bytes(5)); break;
        case 8: {
            auto* d = v.mutable_decimal_value();
            d->set_unscaled_value(s.bytes(4));
            d->set_exponent(s.any_int<std::int32_t>());
            break;
        }
        default: v.set_date_value(s.range(-1000, 1000)); break;
    }
}

PBT_FACET(f_mapped, "column lookup in a key-value record", "at least three columns, one looked up that exists and one that does not", .quick = 40000) {
    kd::Record r;
    auto n = s.size(40);
    std::map<std::string, int> first;
    for (std::size_t i = 0; i < n; ++i) {
        std::string name = s.flip() ? s.chars("aAbB_", 2) : s.utf8(4);
        r.add_names(name);
        gen_value(s, *r.add_values());
        first.emplace(name, static_cast<int>(i));  // a repeated name keeps its first value
    }
    kv::mapped_record m{r};
    bool hit = false, miss = false;
    for (auto& [name, i] : first) {
        auto const* v = m.get_value(name);
        PBT_CHECK(v != nullptr, "column ", pbt::show(name), " not found");
        PBT_EQ(v->SerializeAsString(), r.values(i).SerializeAsString(), "column ", pbt::show(name));
        hit = true;
        ++s.ops;
    }
    for (int k = 0; k < 4; ++k) {
        std::string q = s.flip() ? s.chars("aAbB_c", 3) : s.utf8(4);
        if (s.chance(20) && n > 0) q = r.names(static_cast<int>(s.idx(n))) + std::string(1, '\0');
        auto it = first.find(q);
        auto const* v = m.get_value(q);
        PBT_EQ(v != nullptr, it != first.end(), "column ", pbt::show(q));
        if (v != nullptr) PBT_EQ(v->SerializeAsString(), r.values(it->second).SerializeAsString(), "column ", pbt::show(q));
        if (v == nullptr) miss = true;
        ++s.ops;
    }
    if (n >= 3 && hit && miss) s.nontrivial();
}

kv::table_areas areas(Src& s) {
    kv::table_areas a;
    auto n = s.size(5);
    for (std::size_t i = 0; i < n; ++i) a.push_back(s.utf8(5));
    return a;
}

PBT_FACET(f_txopt, "transaction options keep what was requested", "at least one non-empty area list", .quick = 20000) {
    auto type = static_cast<kv::transaction_type>(s.draw(3));
    kv::table_areas wp = areas(s), ir, er;
    auto prio = kv::transaction_priority::priority_unspecified;
    std::string label;
    bool def = false;
    kv::transaction_option o{type, wp};
    if (s.chance(20)) {
        o = kv::transaction_option{};
        type = kv::transaction_type::unspecified;
        wp.clear();
    }
    auto n = s.size(10);
    for (std::size_t i = 0; i < n; ++i) {
        switch (s.draw(5)) {
            case 0: prio = static_cast<kv::transaction_priority>(s.draw(4)); o.priority(prio); break;
            case 1: label = s.utf8(8); o.label(label); break;
            case 2: def = s.flip(); o.modifies_definitions(def); break;
            case 3: ir = areas(s); o.inclusive_read_areas(ir); break;
            case 4: er = areas(s); o.exclusive_read_areas(er); break;
            default: {
                auto c = o;
                o = std::move(c);
                break;
            }
        }
        PBT_CHECK(o.type() == type && o.write_preserves() == wp && o.priority() == prio && o.label() == label && o.modifies_definitions() == def &&
                      o.inclusive_read_areas() == ir && o.exclusive_read_areas() == er,
            "after step ", i);
        ++s.ops;
    }
    if (!wp.empty() || !ir.empty() || !er.empty()) s.nontrivial();
    PBT_CHECK(o.type() == type && o.write_preserves() == wp, "constructed options");
    auto k = static_cast<kv::transaction_state::state_kind>(s.draw(6));
    PBT_CHECK(kv::transaction_state{k}.kind() == k, "state");
    PBT_CHECK(kv::transaction_state{}.kind() == kv::transaction_state::state_kind::unknown, "default state");
}

// ---- per-request counters ----
PBT_FACET(f_stats, "request counters add up per kind", "two kinds counted and one counted twice", .quick = 40000) {
    using namespace jogasaki;
    request_statistics st;
    std::map<int, std::optional<std::int64_t>> model;
    auto n = s.size(20);
    bool twice = false;
    static char const* const names[] = {"undefined", "inserted", "updated", "merged", "deleted", "fetched"};
    for (std::size_t i = 0; i < n; ++i) {
        int k = static_cast<int>(s.draw(5));
        auto kind = static_cast<counter_kind>(k);
        PBT_EQ(std::string(to_string_view(kind)), std::string(names[k]));
        switch (s.draw(2)) {
            case 0: {  // looking only must not make the kind appear
                auto& c = st.counter(kind);
                PBT_EQ(c.has_value(), model[k].has_value());
                break;
            }
            default: {
                std::int64_t v = s.flip() ? static_cast<std::int64_t>(s.draw(3)) : s.range(s.chance(20) ? -(1LL << 20) : 0, 1LL << 40);
                st.counter(kind).count(v);
                if (model[k]) twice = true;
                model[k] = model[k].value_or(0) + v;
                break;
            }
        }
        auto check = [&](request_statistics& t) {
            std::map<int, std::int64_t> seen;
            t.each_counter([&](counter_kind kd2, request_execution_counter const& c) {
                PBT_CHECK(c.has_value() && c.count().has_value(), "empty counter reported");
                PBT_CHECK(seen.emplace(static_cast<int>(kd2), *c.count()).second, "counter reported twice");
            });
            std::map<int, std::int64_t> want;
            for (auto& [a, b] : model) {
                if (b) want[a] = *b;
            }
            PBT_CHECK(seen == want, "reported counters differ after step ", i);
            for (auto& [a, b] : model) PBT_CHECK(t.counter(static_cast<counter_kind>(a)).count() == b, "counter ", names[a]);
        };
        check(st);
        if (s.chance(20)) {
            auto copy = st;
            check(copy);
            copy.counter(counter_kind::merged).count(7);
            check(st);  // copies are independent
        }
        ++s.ops;
    }
    if (twice && model.size() > 1) s.nontrivial();
    auto a = request_statistics::clock::time_point{} + std::chrono::nanoseconds(s.range(0, 1LL << 60));
    auto d = std::chrono::nanoseconds(s.range(0, 1LL << 50));
    if (s.flip()) {
        st.start_time(a);
        st.end_time(a + d);
    } else {
        st.end_time(a + d);
        st.start_time(a);
    }
    PBT_EQ(st.duration<std::chrono::nanoseconds>().count(), d.count());
    PBT_EQ(st.duration<std::chrono::microseconds>().count(), d.count() / 1000);
    PBT_EQ(st.duration<std::chrono::milliseconds>().count(), d.count() / 1000000);
    s.ops += 3;
}

PBT_FACET(f_chan, "record totals under concurrent writers", "at least two writers", .quick = 1500, .nondet = true, .fuzz = false) {
    jogasaki::executor::io::record_channel_stats st;
    PBT_EQ(st.total_record_count(), 0U);
    std::size_t base = s.draw(1000);
    st.total_record_count(base);
    auto nt = 1 + s.draw(3);
    std::vector<std::vector<std::size_t>> plan(nt);
    std::size_t want = base;
    for (auto& p : plan) {
        auto n = 1 + s.draw(60);
        for (u_int64_t i = 0; i < n; ++i) {
            p.push_back(s.draw(5));
            want += p.back();
        }
    }
    if (nt > 1) s.nontrivial();
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (auto& p : plan) {
        ts.emplace_back([&] {
            ++ready;
            while (ready.load() < static_cast<int>(nt)) {}
            for (auto v : p) st.add_total_record(v);
        });
    }
    for (auto& t : ts) t.join();
    PBT_EQ(st.total_record_count(), want);
    ++s.ops;
}

// ---- timers ----
PBT_FACET(f_watch, "first and last passage times", "a point passed by two workers", .quick = 8000, .fuzz = false) {
    using W = jogasaki::utils::watch;
    using C = W::Clock;
    W w;
    struct T { C::time_point lo, hi; };
    auto b0 = C::now();
    w.restart();
    auto b1 = C::now();
    std::map<std::pair<std::size_t, std::size_t>, T> rec;  // (loc, worker)
    auto n = s.size(25);
    for (std::size_t i = 0; i < n; ++i) {
        if (s.chance(4)) {
            b0 = C::now();
            w.restart();
            b1 = C::now();
            rec.clear();
            s.note("restart");
            continue;
        }
        std::size_t loc = s.pick<std::size_t>({0, 1, 2, 19}), wk = s.draw(3);
        bool none = s.chance(20);
        if (none) wk = static_cast<std::size_t>(-1);
        auto lo = C::now();
        bool r = none ? w.set_point(loc) : w.set_point(loc, wk);
        auto hi = C::now();
        bool isnew = rec.count({loc, wk}) == 0;
        s.note("set_point(", loc, ",", static_cast<long>(wk), ") -> ", r);
        PBT_EQ(r, isnew, "first passage only");
        if (isnew) rec[{loc, wk}] = {lo, hi};
        if (s.chance(30)) {
            volatile int x = 0;
            for (int k = 0; k < 2000; ++k) x = x + k;
        }
        ++s.ops;
    }
    PBT_CHECK(w.base() >= b0 && w.base() <= b1, "base time");
    PBT_CHECK(w.view_first(W::npos) == w.base() && w.view_last(W::npos) == w.base(), "virtual start");
    auto between = [&](C::time_point t, C::time_point lo, C::time_point hi, char const* what, std::size_t loc) {
        PBT_CHECK(t >= lo && t <= hi, what, " of point ", loc, " is outside the time of the call that set it");
        ++s.ops;
    };
    std::map<std::size_t, std::vector<T>> by;
    std::map<std::size_t, std::map<std::size_t, T>> worker;
    for (auto& [k, v] : rec) by[k.first].push_back(v), worker[k.second][k.first] = v;
    for (std::size_t loc : {std::size_t{0}, std::size_t{1}, std::size_t{2}, std::size_t{19}}) {
        auto it = by.find(loc);
        if (it == by.end()) {
            PBT_CHECK(w.view_first(loc) == C::time_point{} && w.view_last(loc) == C::time_point{}, "point ", loc, " was never passed");
            continue;
        }
        if (it->second.size() > 1) s.nontrivial();
        T f = it->second[0], l = it->second[0];
        for (auto& t : it->second) {
            if (t.lo < f.lo) f = t;
            if (t.lo > l.lo) l = t;
        }
        between(w.view_first(loc), f.lo, f.hi, "first", loc);
        between(w.view_last(loc), l.lo, l.hi, "last", loc);
    }
    // durations between two points: every worker that passed one of them is counted once
    std::size_t a = 0, b = 1;
    bool ordered = by.count(a) != 0 && by.count(b) != 0;
    std::size_t workers = 0;
    for (auto& [id, m] : worker) {
        (void) id;
        if (m.count(a) != 0 || m.count(b) != 0) ++workers;
        auto s0 = m.count(a) != 0 ? m[a].hi : (by.count(a) != 0 ? w.view_first(a) : C::time_point{});
        auto e0 = m.count(b) != 0 ? m[b].lo : (by.count(b) != 0 ? w.view_last(b) : C::time_point{});
        if ((m.count(a) != 0 || m.count(b) != 0) && e0 < s0) ordered = false;
    }
    if (ordered) {
        auto ds = w.durations(a, b);
        PBT_EQ(ds->size(), workers);
        std::size_t tot = 0;
        for (auto d : *ds) tot += d;
        PBT_EQ(w.average_duration(a, b), workers == 0 ? 0 : tot / workers);
        auto whole = std::chrono::duration_cast<std::chrono::milliseconds>(w.view_last(b) - w.view_first(a)).count();
        PBT_EQ(w.duration(a, b), static_cast<std::size_t>(whole));
        PBT_EQ(jogasaki::utils::textualize(w, a, b, "L"),
            "L: total " + std::to_string(whole) + "ms, average " + std::to_string(workers == 0 ? 0 : tot / workers) + "ms");
        s.ops += 4;
    }
}

PBT_FACET(f_elapsed, "durations and averages of what took milliseconds", "two workers with a duration of at least a millisecond", .quick = 300, .nondet = true, .fuzz = false) {
    using W = jogasaki::utils::watch;
    using C = W::Clock;
    W w;
    struct T { C::time_point lo, hi; };
    std::vector<std::array<T, 2>> rec(1 + s.draw(2));
    auto pass = [&](std::size_t loc, std::size_t wk) {
        T t;
        t.lo = C::now();
        w.set_point(loc, wk);
        t.hi = C::now();
        rec[wk][loc] = t;
    };
    auto rest = [&] {
        if (auto n = s.draw(3); n > 0) std::this_thread::sleep_for(std::chrono::microseconds(700 * n));
    };
    // some workers pass only one of the two points: the first (last) of the others stands for what is missing
    std::vector<std::array<bool, 2>> has(rec.size(), {true, true});
    auto whole_one = s.idx(rec.size());
    for (std::size_t i = 0; i < rec.size(); ++i) {
        if (i != whole_one && s.chance(40)) has[i][s.idx(2)] = false;
    }
    w.restart();
    for (std::size_t i = 0; i < rec.size(); ++i) { if (has[i][0]) pass(0, i); rest(); }
    for (std::size_t i = 0; i < rec.size(); ++i) { rest(); if (has[i][1]) pass(1, i); }
    for (std::size_t i = 0; i < rec.size(); ++i) {
        if (! has[i][0]) rec[i][0] = {w.view_first(0), w.view_first(0)};
        if (! has[i][1]) rec[i][1] = {w.view_last(1), w.view_last(1)};
    }
    auto ms = [](C::duration d) { return static_cast<std::size_t>(std::chrono::duration_cast<std::chrono::milliseconds>(d).count()); };
    auto ds = *w.durations(0, 1);
    PBT_EQ(ds.size(), rec.size(), "durations");
    std::size_t lo = 0, hi = 0, tot = 0, some = 0;
    for (auto& r : rec) { lo += ms(r[1].lo - r[0].hi); hi += ms(r[1].hi - r[0].lo); }
    for (auto d : ds) { tot += d; some += d > 0; }
    s.note("durations ", tot, " of ", rec.size(), " workers");
    if (some > 1) s.nontrivial();
    PBT_CHECK(lo <= tot && tot <= hi, "the durations add up to ", tot, "ms, between ", lo, " and ", hi, " elapsed");
    PBT_EQ(w.average_duration(0, 1), tot / rec.size(), "average duration");
    auto whole = ms(w.view_last(1) - w.view_first(0));
    PBT_EQ(w.duration(0, 1), whole, "duration");
    PBT_EQ(w.duration(0, 1, true), ms(w.view_first(1) - w.view_last(0)), "complementary duration");
    PBT_EQ(jogasaki::utils::textualize(w, 0, 1, "L"), "L: total " + std::to_string(whole) + "ms, average " + std::to_string(tot / rec.size()) + "ms");
    s.ops += 6;
}

PBT_FACET(f_batch, "batch options keep limits and callbacks", "a callback is set", .quick = 10000) {
    using namespace jogasaki::executor::batch;
    int rf = 0, rb = 0;
    std::size_t a = s.any_u64(), b = s.any_u64();
    bool f = s.flip(), k = s.flip();
    batch_executor_option::release_file_callback_type cf{};
    batch_executor_option::release_block_callback_type cb{};
    if (f) cf = [&](batch_file_executor*) { ++rf; };
    if (k) cb = [&](batch_block_executor*) { ++rb; };
    bool limits = s.flip();
    batch_executor_option o = limits ? batch_executor_option{a, b, cf, cb} : batch_executor_option{cf, cb};
    if (f || k) s.nontrivial();
    PBT_EQ(o.max_concurrent_files(), limits ? a : batch_executor_option::undefined);
    PBT_EQ(o.max_concurrent_blocks_per_file(), limits ? b : batch_executor_option::undefined);
    PBT_EQ(static_cast<bool>(o.release_file_cb()), f);
    PBT_EQ(static_cast<bool>(o.release_block_cb()), k);
    if (f) o.release_file_cb()(nullptr);
    if (k) o.release_block_cb()(nullptr);
    PBT_EQ(rf, static_cast<int>(f));
    PBT_EQ(rb, static_cast<int>(k));
    s.ops += 6;
}

}  // namespace
