// UDF records, cursors and record streams.
#include "pbt.h"

#include <atomic>
#include <chrono>
#include <cmath>
#include <deque>
#include <memory>
#include <optional>
#include <sstream>
#include <set>
#include <thread>
#include <variant>

#include <glog/logging.h>

#include <jogasaki/logging.h>
#include <jogasaki/udf/generic_client_context.h>
#include <jogasaki/udf/generic_record_impl.h>

using namespace pbt;
using namespace plugin::udf;
using kind = runtime_type_kind;

// model value: kind + canonical rendering of the payload
struct mval {
    kind k{kind::null_value};
    std::string repr;
    bool operator==(mval const& o) const { return k == o.k && repr == o.repr; }
};
using mrec = std::vector<mval>;
struct mstate {
    mrec v;
    std::optional<std::pair<int, std::string>> err;
};

template <class T>
static std::string raw(T const& x) { return std::string(reinterpret_cast<char const*>(&x), sizeof x); }

static mval add_random(Src& s, generic_record& r) {
    int k = static_cast<int>(s.draw(16));
    bool null = s.chance(25);
    mval m;
    auto set = [&](kind kk, std::string rep) {
        if (!null) m = mval{kk, std::move(rep)};
    };
    switch (k) {
        case 0: { bool v = s.flip(); null ? r.add_bool_null() : r.add_bool(v); set(kind::boolean, raw(v)); break; }
        case 1: { auto v = s.any_int<std::int32_t>(); null ? r.add_int4_null() : r.add_int4(v); set(kind::int4, raw(v)); break; }
        case 2: { auto v = s.any_int<std::int64_t>(); null ? r.add_int8_null() : r.add_int8(v); set(kind::int8, raw(v)); break; }
        case 3: { auto v = static_cast<std::uint32_t>(s.any_u64()); null ? r.add_uint4_null() : r.add_uint4(v); set(kind::uint4, raw(v)); break; }
        case 4: { auto v = static_cast<std::uint64_t>(s.any_u64()); null ? r.add_uint8_null() : r.add_uint8(v); set(kind::uint8, raw(v)); break; }
        case 5: { auto v = s.any_float(); null ? r.add_float_null() : r.add_float(v); set(kind::float4, raw(v)); break; }
        case 6: { auto v = s.any_double(); null ? r.add_double_null() : r.add_double(v); set(kind::float8, raw(v)); break; }
        case 7: { auto v = s.bytes(30); null ? r.add_string_null() : r.add_string(v); set(kind::string, v); break; }
        case 8: { auto v = s.bytes(30); null ? r.add_bytes_null() : r.add_bytes({v}); set(kind::bytes, v); break; }
        case 9: { auto v = s.bytes(20); auto e = s.any_int<std::int32_t>(); null ? r.add_decimal_null() : r.add_decimal({v, e}); set(kind::decimal, raw(e) + v); break; }
        case 10: { auto v = s.any_int<std::int32_t>(); null ? r.add_date_null() : r.add_date({v}); set(kind::date, raw(v)); break; }
        case 11: { auto v = s.any_int<std::int64_t>(); null ? r.add_local_time_null() : r.add_local_time({v}); set(kind::local_time, raw(v)); break; }
        case 12: { auto v = s.any_int<std::int64_t>(); auto n = static_cast<std::uint32_t>(s.draw(999999999)); null ? r.add_local_datetime_null() : r.add_local_datetime({v, n}); set(kind::local_datetime, raw(v) + raw(n)); break; }
        case 13: { auto v = s.any_int<std::int64_t>(); auto n = static_cast<std::uint32_t>(s.draw(999999999)); auto z = static_cast<std::int32_t>(s.range(-1000, 1000)); null ? r.add_offset_datetime_null() : r.add_offset_datetime({v, n, z}); set(kind::offset_datetime, raw(v) + raw(n) + raw(z)); break; }
        case 14: { auto a = s.any_u64(), b = s.any_u64(), c = s.any_u64(); bool p = s.flip(); null ? r.add_blob_reference_null() : r.add_blob_reference({a, b, c, p}); set(kind::blob_reference, raw(a) + raw(b) + raw(c) + raw(p)); break; }
        default: { auto a = s.any_u64(), b = s.any_u64(), c = s.any_u64(); bool p = s.flip(); null ? r.add_clob_reference_null() : r.add_clob_reference({a, b, c, p}); set(kind::clob_reference, raw(a) + raw(b) + raw(c) + raw(p)); break; }
    }
    return m;
}

// fetch through the accessor of kind k; nullopt if nothing was delivered
static std::optional<std::string> fetch_as(generic_record_cursor& c, kind k) {
    auto f = [](auto o, auto&& g) -> std::optional<std::string> {
        if (!o) return std::nullopt;
        return g(*o);
    };
    switch (k) {
        case kind::boolean: return f(c.fetch_bool(), [](bool v) { return raw(v); });
        case kind::int4: return f(c.fetch_int4(), [](auto v) { return raw(v); });
        case kind::int8: return f(c.fetch_int8(), [](auto v) { return raw(v); });
        case kind::uint4: return f(c.fetch_uint4(), [](auto v) { return raw(v); });
        case kind::uint8: return f(c.fetch_uint8(), [](auto v) { return raw(v); });
        case kind::float4: return f(c.fetch_float(), [](auto v) { return raw(v); });
        case kind::float8: return f(c.fetch_double(), [](auto v) { return raw(v); });
        case kind::string: return f(c.fetch_string(), [](auto v) { return v; });
        case kind::bytes: return f(c.fetch_bytes(), [](auto v) { return v.value; });
        case kind::decimal: return f(c.fetch_decimal(), [](auto v) { return raw(v.exponent) + v.unscaled_value; });
        case kind::date: return f(c.fetch_date(), [](auto v) { return raw(v.days); });
        case kind::local_time: return f(c.fetch_local_time(), [](auto v) { return raw(v.nanos); });
        case kind::local_datetime: return f(c.fetch_local_datetime(), [](auto v) { return raw(v.offset_seconds) + raw(v.nano_adjustment); });
        case kind::offset_datetime: return f(c.fetch_offset_datetime(), [](auto v) { return raw(v.offset_seconds) + raw(v.nano_adjustment) + raw(v.time_zone_offset); });
        case kind::blob_reference: return f(c.fetch_blob_reference(), [](auto v) { return raw(v.storage_id) + raw(v.object_id) + raw(v.tag) + raw(v.provisioned); });
        case kind::clob_reference: return f(c.fetch_clob_reference(), [](auto v) { return raw(v.storage_id) + raw(v.object_id) + raw(v.tag) + raw(v.provisioned); });
        default: return std::nullopt;
    }
}
static kind any_kind(Src& s) { return static_cast<kind>(1 + s.draw(15)); }

static void check_record(Src* s, generic_record_impl const& r, mstate const& m) {
    auto c = r.cursor();
    for (std::size_t i = 0; i < m.v.size(); ++i) {
        PBT_CHECK(c->has_next(), "value ", i, " of ", m.v.size(), " missing");
        PBT_EQ(static_cast<int>(c->current_kind()), static_cast<int>(m.v[i].k), "kind of value ", i);
        PBT_EQ(c->current_is_null(), m.v[i].k == kind::null_value, "null flag of value ", i);
        // looking does not advance
        PBT_EQ(static_cast<int>(c->current_kind()), static_cast<int>(m.v[i].k));
        kind k = m.v[i].k == kind::null_value ? (s ? any_kind(*s) : kind::int4) : m.v[i].k;
        bool mismatch = s && s->chance(10);
        if (mismatch) k = any_kind(*s);
        auto got = fetch_as(*c, k);
        if (k == m.v[i].k) {
            PBT_CHECK(got.has_value(), "value ", i, " lost");
            PBT_EQ(*got, m.v[i].repr, "value ", i);
        } else {
            PBT_CHECK(!got.has_value(), "value ", i, " delivered with another type or although it is NULL");
        }
    }
    PBT_CHECK(!c->has_next(), "surplus value after ", m.v.size());
    PBT_CHECK(!c->current_is_null(), "end of record reported as NULL");
    PBT_CHECK(throws<std::out_of_range>([&] { (void)c->current_kind(); }), "no error past the end");
    PBT_CHECK(!fetch_as(*c, s ? any_kind(*s) : kind::int8).has_value(), "value past the end");
    PBT_CHECK(!c->has_next(), "fetch past the end made a value appear");
    PBT_EQ(r.error().has_value(), m.err.has_value(), "error presence");
    if (m.err) {
        PBT_EQ(static_cast<int>(r.error()->code()), m.err->first);
        PBT_EQ(r.error()->message(), std::string_view(m.err->second));
    }
}

static void set_random_error(Src& s, generic_record_impl& r, mstate& m) {
    int code = static_cast<int>(s.range(0, 16));
    auto msg = s.bytes(12);
    r.set_error(error_info{static_cast<grpc::StatusCode>(code), msg});
    m.err = std::make_pair(code, msg);
}

PBT_FACET(records, "record-cursor", "at least three values of at least two kinds, one of them NULL", .quick = 150000) {
    generic_record_impl a, b;
    mstate ma, mb;
    std::size_t ops = 1 + s.size(16);
    for (std::size_t i = 0; i < ops; ++i) {
        bool first = s.chance(70);
        auto& r = first ? a : b;
        auto& m = first ? ma : mb;
        switch (s.draw(20)) {
            case 17: r.reset(); m = {}; s.note("reset ", first); s.label("reset"); break;
            case 18: set_random_error(s, r, m); s.note("error ", first); break;
            case 19:
                s.note("assign a<-b");
                s.label("assign");
                a.assign_from(std::move(b));
                ma = std::move(mb);
                mb = {};
                break;
            default: m.v.push_back(add_random(s, r)); s.note("add to ", first ? "a" : "b", " kind ", static_cast<int>(m.v.back().k)); break;
        }
    }
    check_record(&s, a, ma);
    check_record(&s, b, mb);
    // cursors are independent
    auto c1 = a.cursor();
    auto c2 = a.cursor();
    std::size_t skip = ma.v.empty() ? 0 : s.draw(ma.v.size() - 1);
    for (std::size_t i = 0; i < skip; ++i) (void)fetch_as(*c1, ma.v[i].k == kind::null_value ? kind::string : ma.v[i].k);
    if (!ma.v.empty()) PBT_EQ(static_cast<int>(c2->current_kind()), static_cast<int>(ma.v[0].k), "cursor moved by another cursor");
    if (skip < ma.v.size()) PBT_EQ(static_cast<int>(c1->current_kind()), static_cast<int>(ma.v[skip].k));
    std::ostringstream o1, o2;
    a.dump(o1);
    o2 << a;
    PBT_EQ(o1.str(), a.debug_string());
    PBT_EQ(o2.str(), a.debug_string());
    s.ops += ma.v.size() * 4 + mb.v.size() * 4 + 10;
    std::map<kind, int> kinds;
    bool nul = false;
    for (auto& x : ma.v) {
        kinds[x.k]++;
        nul = nul || x.k == kind::null_value;
    }
    if (ma.v.size() >= 3 && kinds.size() >= 3 && nul) s.nontrivial();
}

using st = generic_record_stream_status;

// single-threaded history against a queue model
PBT_FACET(streams, "record-stream-history", "a record is taken after end of stream or a close/move happens with records queued", .quick = 80000) {
    struct model {
        std::deque<mstate> q;
        bool eos = false;
    };
    std::vector<std::unique_ptr<generic_record_stream_impl>> str;
    std::vector<model> ms;
    str.push_back(std::make_unique<generic_record_stream_impl>());
    ms.emplace_back();
    generic_record_impl out;
    mstate mout;
    std::size_t ops = 2 + s.size(24);
    for (std::size_t i = 0; i < ops; ++i) {
        std::size_t w = s.idx(str.size());
        auto& t = *str[w];
        auto& m = ms[w];
        int op = static_cast<int>(s.draw(15));
        if (op <= 5) {
            auto r = std::make_unique<generic_record_impl>();
            mstate mr;
            std::size_t n = s.size(4);
            for (std::size_t j = 0; j < n; ++j) mr.v.push_back(add_random(s, *r));
            if (s.chance(20)) set_random_error(s, *r, mr);
            s.note(w, ": push ", n, " values", mr.err ? " +error" : "");
            t.push(std::move(r));
            if (!m.eos) m.q.push_back(std::move(mr));
        } else if (op <= 11) {
            bool blocking = op >= 9;
            st got{};
            if (op == 9) got = t.next(out, std::chrono::milliseconds{0});
            else if (blocking && (m.eos || !m.q.empty())) got = t.next(out, std::nullopt);
            else got = t.try_next(out);
            s.note(w, ": next -> ", static_cast<int>(got));
            if (m.q.empty()) {
                PBT_EQ(static_cast<int>(got), static_cast<int>(m.eos ? st::end_of_stream : st::not_ready), "status of an empty stream");
            } else {
                auto e = std::move(m.q.front());
                m.q.pop_front();
                PBT_EQ(static_cast<int>(got), static_cast<int>(e.err ? st::error : st::ok), "status of a delivered record");
                mout = std::move(e);
                if (m.eos) s.nontrivial();
            }
            // unchanged unless a record was delivered
            check_record(nullptr, out, mout);
            s.ops += 2;
        } else if (op == 12) {
            s.note(w, ": end_of_stream");
            t.end_of_stream();
            m.eos = true;
        } else if (op == 13) {
            s.note(w, ": close");
            if (!m.q.empty()) s.nontrivial();
            t.close();
            m.q.clear();
            m.eos = true;
        } else if (op == 14) {
            s.note(w, ": move-construct as ", str.size());
            if (!m.q.empty()) s.nontrivial();
            if (str.size() < 3) {
                str.push_back(std::make_unique<generic_record_stream_impl>(std::move(t)));
                ms.push_back(std::move(ms[w]));
                ms[w] = model{};
                ms[w].eos = true;
            }
        } else {
            std::size_t f = s.idx(str.size());
            s.note(w, ": move-assign from ", f);
            if (f != w) {
                t = std::move(*str[f]);
                ms[w] = std::move(ms[f]);
                ms[f] = model{};
                ms[f].eos = true;
            }
        }
    }
    // drain: whatever is left is delivered in order
    for (std::size_t w = 0; w < str.size(); ++w) {
        str[w]->end_of_stream();
        while (!ms[w].q.empty()) {
            auto e = std::move(ms[w].q.front());
            ms[w].q.pop_front();
            auto got = str[w]->next(out, std::nullopt);
            PBT_EQ(static_cast<int>(got), static_cast<int>(e.err ? st::error : st::ok), "drain");
            check_record(nullptr, out, e);
            s.ops += 2;
        }
        PBT_EQ(static_cast<int>(str[w]->next(out, std::nullopt)), static_cast<int>(st::end_of_stream));
    }
}

// producers and consumers on real threads: per-producer order, no loss, no duplication, consumers always end
PBT_FACET(conc, "record-stream-concurrent", "at least two threads on one side and 20 records", .quick = 2400, .hang_s = 25, .nondet = true, .fuzz = false) {
    std::size_t np = 1 + s.draw(2), nc = 1 + s.draw(2);
    std::size_t per = 1 + s.draw(60);
    bool close_early = s.chance(25);
    int style = static_cast<int>(s.draw(2));
    std::size_t stop_after = close_early ? s.draw(np * per) : 0;
    s.note(np, " producers x ", per, ", ", nc, " consumers, style ", style, close_early ? " closed early" : "");
    generic_record_stream_impl str;
    std::vector<std::vector<std::int64_t>> got(nc);
    std::atomic<std::size_t> taken{0};
    std::atomic<bool> bad{false};
    std::vector<std::thread> th;
    for (std::size_t c = 0; c < nc; ++c) {
        th.emplace_back([&, c] {
            generic_record_impl r;
            while (true) {
                st x{};
                if (style == 0) x = str.next(r, std::nullopt);
                else if (style == 1) x = str.next(r, std::chrono::milliseconds{1});
                else {
                    x = str.try_next(r);
                    if (x == st::not_ready) std::this_thread::yield();
                }
                if (x == st::end_of_stream) break;
                if (x == st::not_ready) {
                    if (style == 0) { bad = true; break; }
                    continue;
                }
                if (x == st::error) { bad = true; break; }
                auto cur = r.cursor();
                auto v = cur->fetch_int8();
                if (!v) { bad = true; break; }
                got[c].push_back(*v);
                if (close_early && taken.fetch_add(1) + 1 == stop_after) str.close();
            }
        });
    }
    std::vector<std::thread> pt;
    for (std::size_t p = 0; p < np; ++p) {
        pt.emplace_back([&, p] {
            for (std::size_t i = 0; i < per; ++i) {
                auto r = std::make_unique<generic_record_impl>();
                r->add_int8(static_cast<std::int64_t>(p * 1000000 + i));
                str.push(std::move(r));
                if ((i & 7U) == 0) std::this_thread::yield();
            }
        });
    }
    for (auto& t : pt) t.join();
    str.end_of_stream();
    for (auto& t : th) t.join();  // a consumer that never wakes up is reported as a hang
    PBT_CHECK(!bad, "unexpected status or content delivered to a consumer");
    std::map<std::int64_t, int> seen;
    for (auto& g : got) {
        std::map<std::int64_t, std::int64_t> last;
        for (auto v : g) {
            PBT_CHECK(seen[v]++ == 0, "record ", v, " delivered twice");
            auto p = v / 1000000;
            if (last.count(p)) PBT_CHECK(last[p] < v, "record order of producer ", p, " not kept");
            last[p] = v;
        }
    }
    if (!close_early) PBT_EQ(seen.size(), np * per, "records lost");
    s.ops += seen.size();
    if ((np > 1 || nc > 1) && np * per >= 20) s.nontrivial();
}

// another stream takes the place of the one consumers wait on: what it held reaches them, and its end ends them
PBT_FACET(replaced, "record-stream-replaced", "a consumer waited while the stream that replaced its own held records or was at its end", .quick = 1200, .hang_s = 25, .nondet = true, .fuzz = false) {
    std::size_t nc = 1 + s.draw(2);
    std::size_t held = s.draw(6);
    bool ended = s.chance(70);
    bool closed = ended && held == 0 && s.flip();
    auto pause = std::chrono::microseconds{s.draw(400)};
    s.note(nc, " consumers, ", held, " records moved in", ended ? closed ? ", closed" : ", at its end" : "", " after ", pause.count(), " us");
    generic_record_stream_impl str;
    std::vector<std::vector<std::int64_t>> got(nc);
    std::atomic<bool> bad{false};
    std::atomic<std::size_t> left{nc};
    std::atomic<std::size_t> taken{0};
    std::vector<std::thread> th;
    for (std::size_t c = 0; c < nc; ++c) {
        th.emplace_back([&, c] {
            generic_record_impl r;
            for (;;) {
                auto x = str.next(r, std::nullopt);
                if (x == st::end_of_stream) break;
                if (x != st::ok) { bad = true; break; }
                auto v = r.cursor()->fetch_int8();
                if (!v) { bad = true; break; }
                got[c].push_back(*v);
                ++taken;
            }
            --left;
        });
    }
    std::this_thread::sleep_for(pause);
    generic_record_stream_impl other;
    for (std::size_t i = 0; i < held; ++i) {
        auto r = std::make_unique<generic_record_impl>();
        r->add_int8(static_cast<std::int64_t>(i));
        other.push(std::move(r));
    }
    if (closed) other.close();
    else if (ended) other.end_of_stream();
    str = std::move(other);
    // nothing else happens to the stream until the consumers have had what is theirs
    auto done = [&] { return ended ? left == 0 : taken == held; };
    for (int i = 0; i < 5000 && !done(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds{1});
    bool in_time = done();
    str.end_of_stream();
    for (auto& t : th) t.join();
    PBT_CHECK(in_time, "a consumer slept through the stream that replaced its own: ", taken.load(), " of ", held, " records taken, ", left.load(), " consumers waiting");
    PBT_CHECK(!bad, "unexpected status or content delivered to a consumer");
    std::multiset<std::int64_t> all;
    for (auto& g : got) {
        PBT_CHECK(std::is_sorted(g.begin(), g.end()), "order not kept");
        all.insert(g.begin(), g.end());
    }
    PBT_EQ(all.size(), held, "records lost or repeated");
    s.ops += held + nc;
    if (ended || held > 0) s.nontrivial();
}

struct log_catcher : google::LogSink {
    std::vector<std::string> lines;
    void send(google::LogSeverity, char const*, char const*, int, std::tm const*, char const* m, std::size_t n) override { lines.emplace_back(m, n); }
};

PBT_FACET(client_context, "call-context", "a timeout is set and debug text is logged", .quick = 3000) {
    generic_client_context c;
    using clock = std::chrono::system_clock;
    PBT_CHECK(!c.timeout().has_value() && !c.is_debug_enabled(), "a fresh context has settings");
    auto far = c.grpc_context().deadline();
    PBT_CHECK(far - clock::now() > std::chrono::hours{24 * 365}, "a fresh context has a deadline");
    std::optional<std::chrono::milliseconds> want;
    bool debug = false;
    bool logged = false;
    FLAGS_v = s.flip() ? jogasaki::log_debug : jogasaki::log_debug - 1;
    log_catcher sink;
    auto n = 1 + s.size(8);
    for (std::size_t i = 0; i < n; ++i) {
        switch (s.draw(4)) {
            case 0: {
                want = s.flip() ? s.range(0, 100000) * std::chrono::milliseconds{1} : std::chrono::milliseconds{s.range(0, 1000000000000)};
                auto lo = clock::now() + *want;
                c.timeout(want);
                auto hi = clock::now() + *want;
                auto d = c.grpc_context().deadline();
                // gRPC keeps deadlines in its own time type: allow for its rounding
                PBT_CHECK(d >= lo - std::chrono::milliseconds{2} && d <= hi + std::chrono::milliseconds{2}, "deadline off by ",
                    std::chrono::duration_cast<std::chrono::microseconds>(d - lo).count(), " us for a timeout of ", want->count(), " ms");
                break;
            }
            case 1: {
                auto before = c.grpc_context().deadline();
                want.reset();
                c.timeout(std::nullopt);
                PBT_CHECK(c.grpc_context().deadline() == before, "clearing the timeout moved the deadline");
                break;
            }
            case 2:
                debug = s.flip();
                c.debug_enabled(debug);
                break;
            default: {
                auto m = s.chars("abc%{}", 12);
                sink.lines.clear();
                google::AddLogSink(&sink);
                c.log_debug(m);
                google::RemoveLogSink(&sink);
                bool on = debug && FLAGS_v >= jogasaki::log_debug;
                PBT_EQ(sink.lines.size(), on ? 1U : 0U, "debug text logged (enabled: ", debug, ", level ", FLAGS_v, ")");
                if (on) {
                    logged = true;
                    PBT_CHECK(sink.lines[0].find(m) != std::string::npos, "debug text lost: ", show(sink.lines[0]));
                }
            }
        }
        ++s.ops;
        PBT_CHECK(c.timeout() == want, "timeout not kept");
        PBT_EQ(c.is_debug_enabled(), debug);
    }
    if (want && logged) s.nontrivial();
}
