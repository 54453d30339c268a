// P18: rows grouped and sorted by a group exchange. Oracle: grouping and sorting of the list of rows written (rec.h cmp3).
#include <memory>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/exchange/group/flow.h>
#include <jogasaki/executor/exchange/group/group_info.h>
#include <jogasaki/executor/exchange/group/input_partition.h>
#include <jogasaki/executor/exchange/group/priority_queue_reader.h>
#include <jogasaki/executor/exchange/group/sorted_vector_reader.h>
#include <jogasaki/executor/exchange/group/sink.h>
#include <jogasaki/executor/exchange/group/source.h>
#include <jogasaki/executor/exchange/task.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/executor/io/group_reader.h>
#include <jogasaki/executor/io/record_writer.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
#include <algorithm>
#include <map>
#include <set>
#include "rec.h"
using namespace rec;
using namespace jogasaki;
namespace gr = executor::exchange::group;
using executor::ordering;

#include "globals.inc"
#include "context.inc"
namespace jogasaki::executor::exchange {
model::task_result task::operator()() { std::abort(); }  // the scheduler is not part of this
}

namespace {
struct Plan {
    std::vector<Ty> t;  // the last column identifies the row
    std::vector<bool> nullable;
    std::vector<std::size_t> keys, sort;
    std::vector<ordering> ord;
    std::optional<std::size_t> limit;
    std::shared_ptr<meta::record_meta> meta;
};
using Vals = std::vector<V>;

Plan gen_plan(Src& s) {
    Plan p;
    auto n = 1 + s.size(5);
    for (std::size_t i = 0; i < n; ++i) {
        p.t.push_back(gen_type(s, false));
        p.nullable.push_back(s.chance(70));
    }
    Ty id;
    id.k = K::int8;
    p.t.push_back(id);
    p.nullable.push_back(s.flip());
    std::vector<std::size_t> cols(n);
    for (std::size_t i = 0; i < n; ++i) cols[i] = i;
    auto take = [&](int percent) {
        std::vector<std::size_t> r;
        for (std::size_t i = 0; i < cols.size();) {
            if (s.chance(percent)) {
                r.insert(r.begin() + static_cast<std::ptrdiff_t>(s.idx(r.size() + 1)), cols[i]);
                cols.erase(cols.begin() + static_cast<std::ptrdiff_t>(i));
            } else ++i;
        }
        return r;
    };
    p.keys = take(s.pick({0, 40, 60, 100}));
    p.sort = take(s.pick({0, 50, 100}));
    for (std::size_t i = 0; i < p.sort.size(); ++i) p.ord.push_back(s.pick({ordering::ascending, ordering::descending}));
    if (s.chance(40)) p.limit = s.pick({0, 1, 1, 2, 3, 5, 100});
    p.meta = make_meta(p.t, p.nullable);
    return p;
}
struct Gen {
    std::vector<std::vector<V>> pool;  // few values per column, so that rows share keys
    Plan const& p;
    Gen(Src& s, Plan const& plan) : p(plan) {
        for (std::size_t i = 0; i + 1 < p.t.size(); ++i) {
            pool.emplace_back();
            auto k = s.range(1, 4);
            for (i64 j = 0; j < k; ++j) {
                V v = gen_value(s, p.t[i], 50);
                v.null = p.nullable[i] && s.chance(25);
                pool.back().push_back(v);
            }
        }
    }
    Vals row(Src& s, i64 id) {
        Vals r;
        for (auto&& c : pool) r.push_back(s.pick(c));
        V v;
        v.k = K::int8;
        v.i = id;
        r.push_back(v);
        return r;
    }
};
int cmp(Vals const& a, Vals const& b, std::vector<std::size_t> const& cols, std::vector<ordering> const* ord = nullptr) {
    for (std::size_t i = 0; i < cols.size(); ++i) {
        auto& x = a[cols[i]];
        auto& y = b[cols[i]];
        int r = x.null || y.null ? static_cast<int>(y.null) - static_cast<int>(x.null) : cmp3(x, y);
        if (ord && (*ord)[i] == ordering::descending) r = -r;
        if (r) return r;
    }
    return 0;
}
Row build(Plan const& p, Vals const& v) {
    Row r{p.meta};
    std::memset(r.mem, 0xa5, p.meta->record_size());
    for (std::size_t i = 0; i < v.size(); ++i) r.set(i, v[i]);
    return r;
}
V at(meta::record_meta const& m, accessor::record_ref r, std::size_t i) {
    V v;
    v.k = m.at(i).kind();
    if (m.nullable(i) && r.is_null(m.nullity_offset(i))) {
        v.null = true;
        return v;
    }
    return get(r, m.value_offset(i), v.k);
}
// columns outside the keys in the order of the row
std::vector<std::size_t> rest(Plan const& p) {
    std::vector<std::size_t> r;
    for (std::size_t i = 0; i < p.t.size(); ++i)
        if (std::find(p.keys.begin(), p.keys.end(), i) == p.keys.end()) r.push_back(i);
    return r;
}
void expect_key(Plan const& p, gr::group_info const& info, accessor::record_ref r, Vals const& v) {
    for (std::size_t i = 0; i < p.keys.size(); ++i) PBT_CHECK(same(at(*info.key_meta(), r, i), v[p.keys[i]], true) || cmp3(at(*info.key_meta(), r, i), v[p.keys[i]]) == 0, "key column ", i, ": ", at(*info.key_meta(), r, i), " for ", v[p.keys[i]]);
}

PBT_FACET(f_info, "keys, values and sort keys of a row are found where the row holds them", "keys not in column order", .quick = 8000) {
    auto p = gen_plan(s);
    gr::group_info info{p.meta, p.keys, p.sort, p.ord, p.limit};
    PBT_CHECK(info.limit() == p.limit);
    PBT_EQ(info.record_meta().get(), p.meta.get());
    auto others = rest(p);
    PBT_EQ(info.key_meta()->field_count(), p.keys.size());
    PBT_EQ(info.value_meta()->field_count(), others.size());
    PBT_EQ(info.sort_key_meta()->field_count(), p.keys.size() + p.sort.size());
    PBT_CHECK(info.group_meta()->key() == *info.key_meta() && info.group_meta()->value() == *info.value_meta());
    Gen g{s, p};
    auto v = g.row(s, 7);
    auto r = build(p, v);
    auto check = [&](meta::record_meta const& m, accessor::record_ref x, std::vector<std::size_t> const& cols, char const* what) {
        for (std::size_t i = 0; i < cols.size(); ++i) {
            PBT_CHECK(m.at(i) == p.meta->at(cols[i]), what, " type ", i);
            PBT_EQ(m.nullable(i), p.meta->nullable(cols[i]), what, " nullable ", i);
            PBT_CHECK(same(at(m, x, i), v[cols[i]]), what, " column ", i, ": ", at(m, x, i), " for ", v[cols[i]]);
        }
    };
    check(*info.key_meta(), info.extract_key(r.ref()), p.keys, "key");
    check(*info.value_meta(), info.extract_value(r.ref()), others, "value");
    auto sk = p.keys;
    sk.insert(sk.end(), p.sort.begin(), p.sort.end());
    check(*info.sort_key_meta(), info.extract_sort_key(r.ref()), sk, "sort key");
    for (std::size_t i = 0; i < sk.size(); ++i)
        PBT_EQ(info.sort_compare_info().opposite(i), i >= p.keys.size() && p.ord[i - p.keys.size()] == ordering::descending, "direction ", i);
    for (std::size_t i = 0; i < p.keys.size(); ++i) PBT_CHECK(!info.compare_info().opposite(i));
    if (!std::is_sorted(p.keys.begin(), p.keys.end())) s.nontrivial();
}

// reads everything and compares with the rows that were written
struct Reading {
    Plan const& p;
    gr::group_info const& info;
    std::vector<Vals> const& rows;
    std::set<i64> seen{};
    std::vector<Vals> keys{};
    std::size_t members = 0;
    void source(Src& s, executor::io::group_reader& r) {
        std::optional<Vals> last;
        while (r.next_group()) {
            std::optional<Vals> key, prev;
            std::size_t n = 0;
            auto group_key = r.get_group();
            auto pick_row = [&](accessor::record_ref m) -> Vals const& {
                auto others = rest(p);
                auto id = at(*info.value_meta(), m, others.size() - 1);
                PBT_CHECK(!id.null && id.i >= 0 && static_cast<std::size_t>(id.i) < rows.size(), "a row that was not written: ", id);
                PBT_CHECK(seen.insert(id.i).second, "row ", id, " twice");
                auto& v = rows[static_cast<std::size_t>(id.i)];
                for (std::size_t i = 0; i < others.size(); ++i) PBT_CHECK(same(at(*info.value_meta(), m, i), v[others[i]]), "value column ", i, " of row ", id, ": ", at(*info.value_meta(), m, i), " for ", v[others[i]]);
                return v;
            };
            while (r.next_member()) {
                auto& v = pick_row(r.get_member());
                if (!key) {
                    key = v;
                    expect_key(p, info, group_key, v);
                }
                if (s.chance(20)) expect_key(p, info, r.get_group(), v);
                PBT_EQ(cmp(*key, v, p.keys), 0, "rows with different keys in a group");
                if (prev) PBT_CHECK(cmp(*prev, v, p.sort, &p.ord) <= 0, "members not in order");
                prev = v;
                ++n;
                ++members;
            }
            PBT_CHECK(key.has_value(), "a group without member");
            if (last) PBT_CHECK(cmp(*last, *key, p.keys) < 0, "groups not in the order of their keys");
            last = key;
            for (auto&& k : keys) PBT_CHECK(cmp(k, *key, p.keys) != 0, "a group in two pieces");
            keys.push_back(*key);
            // the group is complete, or holds the first rows of it
            std::vector<Vals const*> all;
            for (auto&& v : rows)
                if (cmp(v, *key, p.keys) == 0) all.push_back(&v);
            std::size_t want = p.limit ? std::min(*p.limit, all.size()) : all.size();
            PBT_EQ(n, want, "members of a group of ", all.size(), " limit ", p.limit ? static_cast<i64>(*p.limit) : -1);
            if (n < all.size() && prev) {
                std::stable_sort(all.begin(), all.end(), [&](auto* a, auto* b) { return cmp(*a, *b, p.sort, &p.ord) < 0; });
                PBT_EQ(cmp(*prev, *all[n - 1], p.sort, &p.ord), 0, "the rows kept are the first ones");
            }
        }
    }
    void finish() {
        std::vector<Vals const*> distinct;
        for (auto&& v : rows) {
            bool known = false;
            for (auto* d : distinct) known |= cmp(*d, v, p.keys) == 0;
            if (!known) distinct.push_back(&v);
        }
        PBT_EQ(keys.size(), p.limit && *p.limit == 0 ? 0 : distinct.size(), "groups");
    }
};

PBT_FACET(f_flow, "a group exchange delivers every row in its group, groups and members in order", "groups of several rows from several upstreams", .quick = 2500) {
    auto p = gen_plan(s);
    bool vector = s.chance(40);
    ctx_config->use_sorted_vector(vector);
    ctx_config->noop_pregroup(vector && s.flip());
    auto down = static_cast<std::size_t>(s.range(1, 4));
    auto info = std::make_shared<gr::group_info>(p.meta, p.keys, p.sort, p.ord, p.limit);
    gr::flow f{info, the_context(), nullptr, down};
    auto ups = s.range(1, 3);
    for (i64 u = 0; u < ups; ++u) f.setup_partitions(static_cast<std::size_t>(s.range(1, 3)));
    PBT_EQ(f.source_count(), down);
    Gen g{s, p};
    std::vector<Vals> rows;
    auto n = s.size(60);
    std::vector<executor::io::record_writer*> w;
    for (std::size_t i = 0; i < f.sink_count(); ++i) w.push_back(nullptr);
    std::set<std::size_t> used;
    for (std::size_t k = 0; k < n; ++k) {
        auto i = s.idx(w.size());
        if (!w[i]) w[i] = &f.sink_at(i).acquire_writer();
        rows.push_back(g.row(s, static_cast<i64>(k)));
        {
            auto r = build(p, rows.back());
            PBT_CHECK(w[i]->write(r.ref()));
            std::size_t sz = p.meta->record_size();
            std::memset(r.mem, 0x77, sz);
        }
        used.insert(i);
        if (s.chance(8)) w[i]->flush();
    }
    for (auto*& x : w) {
        if (!x) continue;
        x->flush();
        x->release();
        x = nullptr;
    }
    auto tasks = f.create_tasks();
    PBT_EQ(tasks.size(), 1U);
    PBT_EQ(f.info().empty_input(), rows.empty(), "empty input");
    Reading rd{p, *info, rows};
    for (std::size_t i = 0; i < f.source_count(); ++i) {
        auto rc = f.source_at(i).acquire_reader();
        auto* r = rc.reader<executor::io::group_reader>();
        PBT_CHECK(r != nullptr);
        rd.source(s, *r);
        r->release();
    }
    rd.finish();
    if (used.size() > 1 && rd.members > rd.keys.size() && rd.keys.size() > 1) s.nontrivial();
}

PBT_FACET(f_tables, "rows sorted in many small runs are merged into one order", "three runs or more", .quick = 2000) {
    auto p = gen_plan(s);
    ctx_config->noop_pregroup(false);
    auto info = std::make_shared<gr::group_info>(p.meta, p.keys, p.sort, p.ord, p.limit);
    auto& pool = global::page_pool();
    auto res = [&] { return std::make_unique<memory::monotonic_paged_memory_resource>(&pool); };
    Gen g{s, p};
    std::vector<Vals> rows;
    std::vector<std::unique_ptr<gr::input_partition>> ps;
    auto k = s.range(1, 3);
    std::size_t runs = 0;
    for (i64 i = 0; i < k; ++i) {
        auto cap = static_cast<std::size_t>(s.range(1, 6));
        if (s.chance(10)) {
            ps.push_back(nullptr);
            continue;
        }
        ps.push_back(std::make_unique<gr::input_partition>(res(), res(), res(), info, the_context(), cap));
        auto n = s.size(25);
        std::size_t in_run = 0, tables = 0;
        for (std::size_t j = 0; j < n; ++j) {
            rows.push_back(g.row(s, static_cast<i64>(rows.size())));
            auto r = build(p, rows.back());
            bool full = ps.back()->write(r.ref());
            if (in_run == 0) ++tables;
            ++in_run;
            PBT_EQ(full, in_run == cap, "the run is full");
            if (full) in_run = 0;
            if (s.chance(10)) {
                ps.back()->flush();
                in_run = 0;
            }
        }
        ps.back()->flush();
        PBT_EQ(ps.back()->tables_count(), tables, "runs");
        std::size_t sum = 0;
        for (auto&& t : *ps.back()) {
            PBT_CHECK(t.size() <= t.capacity() && t.empty() == (t.size() == 0));
            sum += t.size();
        }
        PBT_EQ(sum, n, "rows in the runs");
        runs += tables;
    }
    Reading rd{p, *info, rows};
    if (s.flip()) {
        gr::priority_queue_reader r{info, ps};
        rd.source(s, r);
        r.release();
    } else {
        gr::sorted_vector_reader r{info, ps};
        rd.source(s, r);
        r.release();
    }
    rd.finish();
    PBT_CHECK(ps.empty(), "partitions are given back on release");
    if (runs > 2) s.nontrivial();
}
}  // namespace
