// P16: rows passed from one process to another through a forward exchange. Oracle: the list of rows written.
#include <memory>
#include <jogasaki/configuration.h>
#include <jogasaki/data/fifo_record_store.h>
#include <jogasaki/executor/exchange/forward/flow.h>
#include <jogasaki/executor/exchange/forward/forward_info.h>
#include <jogasaki/executor/exchange/forward/reader.h>
#include <jogasaki/executor/exchange/forward/sink.h>
#include <jogasaki/executor/exchange/forward/source.h>
#include <jogasaki/executor/exchange/task.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/executor/io/record_reader.h>
#include <jogasaki/executor/io/record_writer.h>
#include <jogasaki/memory/fifo_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
#include <deque>
#include <thread>
#include "rec.h"
using namespace rec;
using namespace jogasaki;
namespace fw = executor::exchange::forward;

#include "globals.inc"
namespace jogasaki::executor::exchange {
model::task_result task::operator()() { std::abort(); }  // the scheduler is not part of this
}

namespace {
constexpr std::size_t PAGE = memory::page_size;
struct RowV {
    i64 a = 0;
    bool anull = false, snull = false;
    std::string s;
};
struct Layout {
    std::shared_ptr<meta::record_meta> meta;
    bool str = true, pad = false;
};
Layout gen_layout(Src& s) {
    Layout l;
    std::vector<Ty> t(1);
    t[0].k = K::int8;
    l.str = s.chance(85);
    if (l.str) { t.emplace_back(); t.back().k = K::character; }
    if (s.chance(30)) { t.emplace_back(); t.back().k = K::octet; l.pad = true; }
    l.meta = make_meta(t, std::vector<bool>(t.size(), true));
    return l;
}
std::string fill(u64 seed, std::size_t n) {
    std::string r(n, '\0');
    for (std::size_t i = 0; i < n; ++i) r[i] = static_cast<char>('a' + (seed + i * 7 + i / 251) % 26);
    return r;
}
// lengths around the in-place limit, ordinary ones and some that take a good part of a page
RowV gen_rowv(Src& s, Layout const& l, int big) {
    RowV r;
    r.a = static_cast<i64>(s.draw(1 << 20));
    r.anull = s.chance(10);
    r.snull = s.chance(15);
    if (l.str && !r.snull) {
        std::size_t n = s.chance(big) ? s.pick({100000UL, 500000UL, 700000UL, 1048576UL, 1500000UL, PAGE - 1, PAGE}) - s.range(0, 2) * 1000 : s.chance(60) ? s.range(0, 20) : s.range(0, 400);
        r.s = fill(static_cast<u64>(r.a), n);
    }
    return r;
}
Row build(Layout const& l, RowV const& v) {
    Row r{l.meta};
    std::memset(r.mem, 0xee, l.meta->record_size());
    V a;
    a.k = K::int8;
    a.i = v.a;
    a.null = v.anull;
    r.set(0, a);
    std::size_t i = 1;
    if (l.str) {
        V x;
        x.k = K::character;
        x.s = v.s;
        x.null = v.snull;
        r.set(i++, x);
    }
    if (l.pad) {
        V x;
        x.k = K::octet;
        x.null = true;
        r.set(i, x);
    }
    return r;
}
void expect(Layout const& l, accessor::record_ref r, RowV const& v, char const* what) {
    PBT_EQ(r.is_null(l.meta->nullity_offset(0)), v.anull, what);
    if (!v.anull) PBT_EQ(r.get_value<std::int64_t>(l.meta->value_offset(0)), v.a, what);
    if (!l.str) return;
    PBT_EQ(r.is_null(l.meta->nullity_offset(1)), v.snull, what);
    if (v.snull) return;
    auto t = r.get_value<text>(l.meta->value_offset(1));
    auto x = static_cast<std::string_view>(t);
    PBT_EQ(x.size(), v.s.size(), what);
    PBT_CHECK(x == v.s, what, ": text of ", v.s.size(), " bytes changed");
}
std::size_t long_bytes(Layout const& l, RowV const& v) { return l.str && !v.snull && v.s.size() > 15 ? v.s.size() : 0; }

// pages kept for rows that are gone are a leak: allow what fragmentation can explain
std::size_t page_bound(std::size_t live, std::size_t largest) {
    auto use = PAGE > largest ? PAGE - largest : 0;  // at most `largest` wasted at the end of each
    return use < PAGE / 8 ? static_cast<std::size_t>(-1) : live / use + 4;
}

PBT_FACET(f_fifo, "a queue of rows gives them back unchanged in order and frees their memory", "rows popped after strings have spanned two pages", .quick = 1200) {
    auto l = gen_layout(s);
    auto& pool = global::page_pool();
    (void) pool;
    memory::fifo_paged_memory_resource res{&pool}, vl{&pool};
    bool deep = s.chance(85);
    bool prepared = s.chance(25);  // also rows that are filled in place
    std::deque<Row> alive;         // sources of shallow copies
    data::fifo_record_store st{&res, deep ? &vl : nullptr, l.meta};
    PBT_CHECK(st.empty() && st.count() == 0 && *st.meta() == *l.meta);
    std::deque<RowV> q;
    std::optional<RowV> cur;
    accessor::record_ref out{};
    int big = static_cast<int>(s.pick({0, 3, 30, 60}));
    bool rows_big = s.chance(8);
    bool far = false;
    std::size_t live = 0, largest = 0, total = 0;
    auto steps = s.size(60);
    auto push = [&](RowV v) {
        total += long_bytes(l, v);
        live += long_bytes(l, v);
        largest = std::max(largest, long_bytes(l, v));
        if (prepared && s.flip()) {
            auto* p = st.allocate_record();
            auto src = build(l, v);
            accessor::record_ref dst{p, l.meta->record_size()};
            st.copier()(dst, src.ref());
            if (!deep) alive.push_back(std::move(src));
        } else {
            auto src = build(l, v);
            auto* p = st.push(src.ref());
            PBT_CHECK(p != nullptr);
            std::size_t sz = l.meta->record_size();
            std::memset(src.mem, 0x77, sz);
            if (!deep) alive.push_back(std::move(src));
        }
        q.push_back(std::move(v));
    };
    auto pop = [&] {
        auto r = st.try_pop(out);
        PBT_EQ(r, !q.empty(), "try_pop");
        if (cur) live -= long_bytes(l, *cur);
        cur.reset();
        if (!r) return;
        cur = q.front();
        q.pop_front();
        expect(l, out, *cur, "popped row");
        if (total > PAGE) far = true;
    };
    for (std::size_t k = 0; k < steps; ++k) {
        if (s.chance(50)) {
            u64 n = rows_big ? s.range(1, 3000) : s.range(1, 4);
            bool same = rows_big;
            auto v = gen_rowv(s, l, big);
            for (u64 i = 0; i < n; ++i) {
                if (!same) v = gen_rowv(s, l, big);
                v.a = static_cast<i64>(k * 10000 + i);
                if (same && v.s.size() > 100) v.s.resize(20);
                push(v);
            }
        } else {
            u64 n = rows_big ? s.range(1, 4000) : s.range(1, 5);
            for (u64 i = 0; i < n; ++i) pop();
        }
        PBT_EQ(st.count(), q.size());
        PBT_EQ(st.empty(), q.empty());
        if (cur) expect(l, out, *cur, "row popped earlier, before the next pop");
        if (deep && !prepared) PBT_CHECK(vl.count_pages() <= page_bound(live, largest), vl.count_pages(), " pages for ", live, " bytes");
        PBT_CHECK(res.count_pages() <= (q.size() + 2) * (l.meta->record_size() + 32) / (PAGE - 4096) + 3, res.count_pages(), " pages for ", q.size(), " rows");
    }
    while (!q.empty()) pop();
    pop();
    if (deep && !prepared) PBT_CHECK(vl.count_pages() <= 1, "memory of rows that are gone");
    PBT_CHECK(res.count_pages() <= 1);
    if (far && deep) s.nontrivial();
}

struct Pair {
    executor::io::record_writer* w{};
    executor::io::record_reader* r{};
};
Pair join(fw::flow& f, std::size_t i) {
    Pair p;
    p.w = &f.sink_at(i).acquire_writer();
    p.r = f.source_at(i).acquire_reader().reader<executor::io::record_reader>();
    return p;
}

PBT_FACET(f_flow, "a forward exchange delivers each partition's rows, up to the limit", "a limit that cuts, or several partitions", .quick = 3000) {
    auto l = gen_layout(s);
    std::optional<std::size_t> limit;
    if (s.chance(60)) limit = s.range(0, 30);
    auto info = std::make_shared<fw::forward_info>(l.meta, limit);
    PBT_CHECK(info->limit() == limit && *info->record_meta() == *l.meta);
    fw::flow f{info, nullptr, nullptr};
    auto n = s.range(1, 4);
    // an exchange with several upstreams is extended by each of them
    auto ups = s.range(1, n);
    for (u64 u = 0, done = 0; u < ups; ++u) {
        auto part = u + 1 == ups ? n - done : 1;
        f.setup_partitions(part);
        done += part;
        PBT_EQ(f.sink_count(), done);
    }
    PBT_EQ(f.sink_count(), n);
    PBT_EQ(f.source_count(), n);
    std::vector<Pair> ps;
    for (std::size_t i = 0; i < n; ++i) ps.push_back(join(f, i));
    std::vector<std::deque<RowV>> q(n);
    std::vector<std::optional<RowV>> cur(n);
    std::vector<bool> open(n, true);
    std::size_t accepted = 0, cut = 0;
    auto read = [&](std::size_t i) {
        if (s.flip()) PBT_EQ(ps[i].r->available(), !q[i].empty(), "available");
        auto r = ps[i].r->next_record();
        PBT_EQ(r, !q[i].empty(), "a row in partition ", i);
        cur[i].reset();
        if (!r) return;
        cur[i] = q[i].front();
        q[i].pop_front();
        expect(l, ps[i].r->get_record(), *cur[i], "row read");
    };
    auto steps = s.size(60);
    for (std::size_t k = 0; k < steps; ++k) {
        auto i = s.idx(n);
        PBT_EQ(ps[i].r->source_active(), static_cast<bool>(open[i]), "source active");
        switch (s.idx(8)) {
            case 0:
                if (open[i] && s.chance(20)) {
                    ps[i].w->release();
                    open[i] = false;
                    PBT_CHECK(!ps[i].r->source_active());
                }
                break;
            case 1:
                if (open[i]) ps[i].w->flush();
                break;
            case 2:
            case 3:
            case 4: read(i); break;
            default: {
                if (!open[i]) break;
                auto v = gen_rowv(s, l, 0);
                v.a = static_cast<i64>(k);
                auto src = build(l, v);
                PBT_CHECK(ps[i].w->write(src.ref()));
                std::size_t sz = l.meta->record_size();
                std::memset(src.mem, 0x77, sz);
                if (!limit || accepted < *limit) {
                    ++accepted;
                    q[i].push_back(std::move(v));
                } else {
                    ++cut;
                }
            }
        }
        for (std::size_t j = 0; j < n; ++j)
            if (cur[j]) expect(l, ps[j].r->get_record(), *cur[j], "row read earlier");
    }
    for (std::size_t i = 0; i < n; ++i) {
        if (open[i]) ps[i].w->release();
        while (!q[i].empty()) read(i);
        read(i);
        ps[i].r->release();
    }
    if (cut > 0 || n > 1) s.nontrivial();
}

PBT_FACET(f_threads, "writers and readers at work together lose and mix up nothing", "two or more rows per partition", .quick = 250, .nondet = true, .fuzz = false) {
    auto l = gen_layout(s);
    std::optional<std::size_t> limit;
    if (s.chance(40)) limit = s.range(0, 400);
    auto info = std::make_shared<fw::forward_info>(l.meta, limit);
    fw::flow f{info, nullptr, nullptr};
    auto n = s.range(1, 3);
    f.setup_partitions(n);
    std::vector<std::vector<RowV>> in(n);
    std::size_t total = 0;
    bool slow = s.flip();
    for (auto&& x : in) {
        auto m = s.range(0, 200);
        auto len = s.pick({0UL, 30UL, 3000UL, 60000UL});
        for (u64 i = 0; i < m; ++i) {
            RowV v;
            v.a = static_cast<i64>(i);
            if (l.str) v.s = fill(i, len ? len - i % 7 : i % 16);
            x.push_back(std::move(v));
        }
        total += m;
    }
    std::vector<std::vector<i64>> got(n);
    std::vector<std::string> err(n);
    std::vector<std::thread> th;
    for (std::size_t p = 0; p < n; ++p) {
        auto& sink = f.sink_at(p);
        auto& source = f.source_at(p);
        th.emplace_back([&, p] {
            auto& w = sink.acquire_writer();
            for (auto&& v : in[p]) {
                auto r = build(l, v);
                w.write(r.ref());
                if (slow && v.a % 13 == 0) std::this_thread::yield();
            }
            w.release();
        });
        th.emplace_back([&, p] {
            auto* r = source.acquire_reader().reader<executor::io::record_reader>();
            try {
                while (true) {
                    bool active = r->source_active();
                    while (r->next_record()) {
                        auto ref = r->get_record();
                        auto id = ref.get_value<std::int64_t>(l.meta->value_offset(0));
                        PBT_CHECK(id >= 0 && static_cast<std::size_t>(id) < in[p].size(), "row ", id);
                        expect(l, ref, in[p][static_cast<std::size_t>(id)], "row read");
                        got[p].push_back(id);
                    }
                    if (!active) break;
                    std::this_thread::yield();
                }
            } catch (Fail const& e) {
                err[p] = e.what();
            }
        });
    }
    for (auto&& t : th) t.join();
    std::size_t sum = 0;
    bool many = false;
    for (std::size_t p = 0; p < n; ++p) {
        PBT_CHECK(err[p].empty(), err[p]);
        sum += got[p].size();
        many |= in[p].size() > 1;
        for (std::size_t i = 0; i < got[p].size(); ++i) PBT_EQ(got[p][i], static_cast<i64>(i), "rows of partition ", p, " in order");
    }
    PBT_EQ(sum, limit ? std::min(*limit, total) : total, "rows delivered");
    if (many) s.nontrivial();
}
}  // namespace
