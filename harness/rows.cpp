// P15: rows keep their values through layout, access, copying and buffering. Oracle: the row as a list of values, kept by the harness.
#include <jogasaki/accessor/const_record_ref.h>
#include <jogasaki/accessor/record_copier.h>
#include <jogasaki/configuration.h>
#include <jogasaki/data/any.h>
#include <jogasaki/data/any_sequence.h>
#include <jogasaki/data/iterable_record_store.h>
#include <jogasaki/data/record_store.h>
#include <jogasaki/data/result_store.h>
#include <jogasaki/data/small_record_store.h>
#include <jogasaki/data/value.h>
#include <jogasaki/data/value_store.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/memory/page_pool.h>
#include <thread>
#include "rec.h"
using namespace rec;
using namespace jogasaki;

namespace jogasaki::global {
using takatori::util::maybe_shared_ptr;
maybe_shared_ptr<configuration> const& config_pool(maybe_shared_ptr<configuration> arg) {
    static maybe_shared_ptr<configuration> pool = std::make_shared<configuration>();
    if (arg) pool = std::move(arg);
    return pool;
}
memory::page_pool& page_pool(pool_operation) {
    static memory::page_pool p{};
    return p;
}
}  // namespace jogasaki::global

namespace {
// memory in small separate pages, so that a store spans many of them
struct PageRes : memory::paged_memory_resource {
    std::list<std::unique_ptr<char[]>> pages;
    std::size_t size, used;
    explicit PageRes(std::size_t n) : size(n), used(n) {}
    void* do_allocate(std::size_t n, std::size_t al) override {
        if (pages.empty() || (used + al - 1) / al * al + n > size) {
            auto len = std::max(size, n);
            pages.emplace_back(static_cast<char*>(::operator new[](len)));
            std::memset(pages.back().get(), 0xcd, len);
            used = 0;
        }
        used = (used + al - 1) / al * al;
        auto* p = pages.back().get() + used;
        used += n;
        return p;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(boost::container::pmr::memory_resource const& o) const noexcept override { return this == &o; }
    std::size_t do_page_remaining(std::size_t) const noexcept override { return pages.empty() ? 0 : size - used; }
    void end_current_page() override { used = size; }
};

using Vals = std::vector<V>;
struct Table {
    std::vector<Ty> ty;
    std::vector<bool> nullable;
    std::shared_ptr<meta::record_meta> meta;
};
Table gen_table(Src& s, std::size_t max = 12, bool zero = true) {
    Table t;
    auto n = s.size(s.chance(10) ? 70 : max);
    if (n == 0 && !zero) n = 1;
    for (std::size_t i = 0; i < n; ++i) {
        t.ty.push_back(gen_type(s));
        t.nullable.push_back(s.chance(60));
    }
    t.meta = make_meta(t.ty, t.nullable);
    return t;
}
Vals gen_row(Src& s, Table const& t) {
    Vals r;
    for (std::size_t i = 0; i < t.ty.size(); ++i) {
        r.push_back(gen_value(s, t.ty[i]));
        r.back().null = t.nullable[i] && s.chance(30);
    }
    return r;
}
// a record filled with rubbish where values are null
Row build(Table const& t, Vals const& v) {
    Row r{t.meta};
    if (t.meta->record_size() > 0) std::memset(r.mem, 0xee, t.meta->record_size());
    for (std::size_t i = 0; i < v.size(); ++i) r.set(i, v[i]);
    return r;
}
template <class R>
V at(Table const& t, R r, std::size_t i) {
    V v;
    v.k = t.ty[i].k;
    if (t.nullable[i] && r.is_null(t.meta->nullity_offset(i))) {
        v.null = true;
        return v;
    }
    return get(r, t.meta->value_offset(i), v.k);
}
template <class R>
void expect(Table const& t, R r, Vals const& v, char const* what) {
    for (std::size_t i = 0; i < v.size(); ++i) {
        auto a = at(t, r, i);
        PBT_CHECK(same(a, v[i]), what, ": field ", i, " of ", v.size(), " is ", a, ", expected ", v[i]);
    }
}
bool nullable_mix(Vals const& v) {
    bool a = false, b = false;
    for (auto&& x : v) (x.null ? a : b) = true;
    return a && b;
}
std::size_t size_of(K k) {
    switch (k) {
        case K::boolean: return 1;
        case K::int1:
        case K::int2:
        case K::int4:
        case K::float4: return 4;
        case K::int8:
        case K::float8: return 8;
        case K::character: return sizeof(text);
        case K::octet: return sizeof(binary);
        case K::decimal: return sizeof(triple);
        case K::date: return sizeof(dt::date);
        case K::time_of_day: return sizeof(dt::time_of_day);
        case K::time_point: return sizeof(dt::time_point);
        case K::blob: return sizeof(lob::blob_reference);
        case K::clob: return sizeof(lob::clob_reference);
        default: std::abort();
    }
}

PBT_FACET(f_layout, "fields of a row have places of their own", "at least three fields, some nullable and some not", .quick = 12000) {
    auto t = gen_table(s);
    auto& m = *t.meta;
    auto n = t.ty.size();
    PBT_EQ(m.field_count(), n);
    PBT_EQ(static_cast<std::size_t>(std::distance(m.begin(), m.end())), n);
    std::vector<int> used(m.record_size() + 1, 0);
    PBT_CHECK(m.record_alignment() > 0 && m.record_size() % m.record_alignment() == 0, m.record_size(), " ", m.record_alignment());
    std::vector<std::size_t> bits;
    std::size_t al = 1;
    for (std::size_t i = 0; i < n; ++i) {
        auto a = m.at(i).runtime_type_alignment();
        al = std::max(al, a);
        auto o = m.value_offset(i), z = size_of(t.ty[i].k);
        PBT_EQ(m.at(i).runtime_type_size(), z);
        PBT_EQ(o % a, 0UL, "field ", i);
        PBT_CHECK(o + z <= m.record_size(), "field ", i, " ends at ", o + z, " of ", m.record_size());
        for (auto b = o; b < o + z; ++b) PBT_EQ(used[b]++, 0, "byte ", b, " of field ", i);
        PBT_EQ(m.nullable(i), static_cast<bool>(t.nullable[i]));
        PBT_EQ(m[i], t.ty[i].ft());
        if (t.nullable[i]) bits.push_back(m.nullity_offset(i));
        else PBT_EQ(m.nullity_offset(i), meta::record_meta::npos);
    }
    PBT_EQ(m.record_alignment() % al, 0UL);
    auto sorted = bits;
    std::sort(sorted.begin(), sorted.end());
    PBT_CHECK(std::adjacent_find(sorted.begin(), sorted.end()) == sorted.end(), "two fields share a null flag");
    for (auto b : bits) {
        PBT_CHECK(b / 8 < m.record_size(), "null flag outside");
        PBT_EQ(used[b / 8], 0, "null flag overlaps a value");
    }
    // another table is equal exactly when types and nullability are
    auto u = t;
    int change = static_cast<int>(s.idx(4));
    if (n > 0 && change) {
        auto i = s.idx(n);
        if (change == 1) u.nullable[i] = !u.nullable[i];
        if (change == 2) { u.ty.erase(u.ty.begin() + static_cast<long>(i)); u.nullable.erase(u.nullable.begin() + static_cast<long>(i)); }
        if (change == 3) u.ty[i].k = u.ty[i].k == K::int8 ? K::float8 : K::int8;
    }
    auto um = make_meta(u.ty, u.nullable);
    bool eq = u.ty.size() == n;
    for (std::size_t i = 0; eq && i < n; ++i) eq = u.ty[i].ft() == t.ty[i].ft() && u.nullable[i] == t.nullable[i];
    PBT_EQ(*um == m, eq);
    PBT_EQ(*um != m, !eq);
    // a record may be declared larger than its fields need
    boost::dynamic_bitset<std::uint64_t> nb;
    for (auto x : t.nullable) nb.push_back(x);
    std::vector<meta::field_type> fs;
    for (auto&& x : t.ty) fs.push_back(x.ft());
    auto extra = s.range(0, 3) * m.record_alignment();
    meta::record_meta big{fs, nb, m.record_size() + extra};
    PBT_EQ(big.record_size(), m.record_size() + extra);
    for (std::size_t i = 0; i < n; ++i) PBT_EQ(big.value_offset(i), m.value_offset(i));
    if (n >= 3 && !bits.empty() && bits.size() < n) s.nontrivial();
}

PBT_FACET(f_fields, "setting one field changes no other", "at least two fields and a null", .quick = 12000) {
    auto t = gen_table(s, 12, false);
    auto v = gen_row(s, t);
    auto r = build(t, v);
    expect(t, r.ref(), v, "fresh");
    auto steps = s.size(20);
    bool nulls = nullable_mix(v);
    for (std::size_t k = 0; k < steps; ++k) {
        auto i = s.idx(v.size());
        if (t.nullable[i] && s.chance(40)) {
            // the flag alone: the value comes back when it is cleared
            bool to = s.flip();
            if (v[i].null && !to) {
                v[i] = gen_value(s, t.ty[i]);
                put(r.ref(), t.meta->value_offset(i), v[i], r.res.get());
            }
            v[i].null = to;
            r.ref().set_null(t.meta->nullity_offset(i), to);
        } else {
            v[i] = gen_value(s, t.ty[i]);
            v[i].null = t.nullable[i] && s.chance(30);
            r.set(i, v[i]);
        }
        nulls |= nullable_mix(v);
        expect(t, r.ref(), v, "after a change");
        expect(t, accessor::const_record_ref{r.ref()}, v, "after a change (const)");
    }
    // optional access agrees
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (!t.nullable[i] || t.ty[i].k != K::int8) continue;
        auto o = r.ref().get_if<std::int64_t>(t.meta->nullity_offset(i), t.meta->value_offset(i));
        PBT_EQ(o.has_value(), !v[i].null);
        if (o) PBT_EQ(*o, v[i].i);
        auto c = accessor::const_record_ref{r.ref()}.get_if<std::int64_t>(t.meta->nullity_offset(i), t.meta->value_offset(i));
        PBT_CHECK(c == o);
    }
    PBT_CHECK(throws<std::exception>([&] { (void) r.ref().get_value<std::int8_t>(t.meta->record_size()); }), "reading beyond the record");
    if (nulls && v.size() > 1) s.nontrivial();
}

PBT_FACET(f_copy, "a deep copy survives its source, a shallow one shares it", "a string longer than fits in place", .quick = 12000) {
    auto t = gen_table(s, 12, false);
    auto v = gen_row(s, t);
    bool deep = s.chance(75);
    Row dst{t.meta};
    accessor::record_copier cp{t.meta, deep ? dst.res.get() : nullptr};
    auto times = s.range(1, 3);
    std::size_t shared = 0;
    bool longs = false;
    for (u64 k = 0; k < times; ++k) {  // the copier keeps no state between rows
        v = gen_row(s, t);
        for (auto&& x : v) longs |= x.s.size() > 15 && !x.null;
        auto before = dst.res->total;
        auto src = std::make_unique<Row>(build(t, v));
        if (s.flip()) cp(dst.ref(), src->ref());
        else cp(dst.mem, t.meta->record_size(), src->ref());
        expect(t, src->ref(), v, "source after copying");
        if (!deep) {
            expect(t, dst.ref(), v, "shallow copy");
            PBT_EQ(dst.res->total, shared, "a shallow copy takes no memory");
        } else {
            (void) before;
        }
        std::size_t sz = t.meta->record_size();
        std::memset(src->mem, 0x77, sz);
        src.reset();  // source record and its strings are gone
        if (deep) expect(t, dst.ref(), v, "deep copy");
    }
    if (longs) s.nontrivial();
}

PBT_FACET(f_small, "single row buffer", "a row replaced by another", .quick = 6000) {
    auto t = gen_table(s, 8, false);
    Res res, res2;
    bool deep = s.chance(70);
    data::small_record_store st{t.meta, deep ? &res : nullptr};
    PBT_CHECK(static_cast<bool>(st));
    PBT_CHECK(!static_cast<bool>(data::small_record_store{}));
    PBT_EQ(st.ref().size(), t.meta->record_size());
    PBT_EQ(reinterpret_cast<std::uintptr_t>(st.ref().data()) % t.meta->record_alignment(), 0UL);
    auto n = s.range(1, 4);
    std::list<Row> rows;
    Vals v;
    for (u64 i = 0; i < n; ++i) {
        v = gen_row(s, t);
        rows.push_back(build(t, v));
        PBT_EQ(st.set(rows.back().ref()), st.ref().data());
        if (deep) rows.clear();
        expect(t, st.ref(), v, "stored row");
    }
    // equality is that of layout and bytes
    data::small_record_store a{t.meta}, b{t.meta};
    auto w = gen_row(s, t);
    auto r1 = build(t, v), r2 = build(t, w);
    a.set(r1.ref());
    b.set(r1.ref());
    PBT_CHECK(a == b && !(a != b), "same bytes");
    b.set(r2.ref());
    bool bytes = std::memcmp(r1.mem, r2.mem, t.meta->record_size()) == 0;
    PBT_EQ(a == b, bytes);
    PBT_EQ(a != b, !bytes);
    data::small_record_store e1{}, e2{};
    PBT_CHECK(e1 == e2 && !(a == e1) && !(e1 == a), "empty stores");
    auto u = t;
    u.nullable[0] = !u.nullable[0];
    data::small_record_store c{make_meta(u.ty, u.nullable)};
    PBT_CHECK(!(a == c), "stores of another layout");
    if (n > 1) s.nontrivial();
}

PBT_FACET(f_store, "buffered rows come back complete and in order", "rows in more than one page, or the store reused", .quick = 8000) {
    auto t = gen_table(s, 6);
    auto rs = std::max<std::size_t>(t.meta->record_size(), 1);
    PageRes res{rs * s.range(1, 6) + s.range(0, 20)}, vl{s.range(1, 200)};
    bool iterable = s.chance(80);
    data::record_store plain{&res, &vl, t.meta};
    data::iterable_record_store it{&res, &vl, t.meta};
    auto rounds = s.range(1, 3);
    bool multi = false;
    PBT_CHECK(it.empty() && plain.empty() && it.begin() == it.end());
    for (u64 k = 0; k < rounds; ++k) {
        auto n = s.size(25);
        std::vector<Vals> model;
        std::vector<void*> ptrs;
        for (std::size_t i = 0; i < n; ++i) {
            auto v = gen_row(s, t);
            {
                auto r = build(t, v);
                if (iterable) {
                    auto ref = it.append(r.ref());
                    PBT_EQ(ref.size(), t.meta->record_size());
                    ptrs.push_back(ref.data());
                } else {
                    ptrs.push_back(plain.append(r.ref()));
                }
            }
            model.push_back(std::move(v));
            if (s.chance(15)) res.end_current_page();
            if (s.chance(10)) (void) res.do_allocate(s.range(1, 3), 1);  // someone else takes memory in between
        }
        for (std::size_t i = 0; i < n; ++i) {
            PBT_EQ(reinterpret_cast<std::uintptr_t>(ptrs[i]) % t.meta->record_alignment(), 0UL);
            expect(t, accessor::record_ref{ptrs[i], t.meta->record_size()}, model[i], "by pointer");
        }
        if (iterable) {
            PBT_EQ(it.count(), n);
            PBT_EQ(it.empty(), n == 0);
            std::size_t i = 0;
            auto e = it.end();
            for (auto p = it.begin(); p != e;) {
                PBT_CHECK(i < n, "more rows than were added");
                PBT_EQ((*p).size(), t.meta->record_size());
                PBT_EQ(p.ref().data(), ptrs[i]);
                expect(t, *p, model[i], "by iteration");
                ++i;
                if (s.flip()) {
                    ++p;
                } else {
                    auto q = p++;
                    PBT_CHECK(q != p);
                    PBT_EQ(q.ref().data(), ptrs[i - 1]);
                }
            }
            PBT_EQ(i, n, "rows found by iteration");
        } else {
            PBT_EQ(plain.count(), n);
            PBT_EQ(plain.empty(), n == 0);
        }
        if (res.pages.size() > 1 && n > 1) multi = true;
        if (k + 1 < rounds) {
            (iterable ? it.reset() : plain.reset());
            PBT_EQ(it.count(), 0UL);
            PBT_EQ(plain.count(), 0UL);
            PBT_CHECK(it.begin() == it.end());
            if (s.flip()) { res.pages.clear(); vl.pages.clear(); }
            if (n > 0) multi = true;
        }
    }
    if (multi) s.nontrivial();
}

template <class T>
T runtime(V const& v, Res* r) {
    if constexpr (std::is_same_v<T, text> || std::is_same_v<T, binary>) return T{r, v.s};
    else if constexpr (std::is_same_v<T, triple>) return v.t;
    else if constexpr (std::is_same_v<T, float>) return v.f;
    else if constexpr (std::is_same_v<T, double>) return v.d;
    else if constexpr (std::is_same_v<T, dt::date>) return dt::date{v.i};
    else if constexpr (std::is_same_v<T, dt::time_of_day>) return dt::time_of_day{std::chrono::nanoseconds{v.i}};
    else if constexpr (std::is_same_v<T, dt::time_point>) return dt::time_point{dt::time_point::offset_type{v.i}, std::chrono::nanoseconds{v.n}};
    else return static_cast<T>(v.i);
}
template <class T>
V of(T const& x, K k) {
    V v;
    v.k = k;
    if constexpr (std::is_same_v<T, text> || std::is_same_v<T, binary>) v.s = static_cast<std::string>(x);
    else if constexpr (std::is_same_v<T, triple>) v.t = x;
    else if constexpr (std::is_same_v<T, float>) v.f = x;
    else if constexpr (std::is_same_v<T, double>) v.d = x;
    else if constexpr (std::is_same_v<T, dt::date>) v.i = x.days_since_epoch();
    else if constexpr (std::is_same_v<T, dt::time_of_day>) v.i = static_cast<i64>(x.time_since_epoch().count());
    else if constexpr (std::is_same_v<T, dt::time_point>) { v.i = x.seconds_since_epoch().count(); v.n = static_cast<std::int32_t>(x.subsecond().count()); }
    else v.i = static_cast<i64>(x);
    return v;
}

template <class T>
void values(Src& s, K k) {
    Ty ty;
    ty.k = k;
    if (k == K::decimal) { ty.prec = 38; ty.scale = 3; }
    PageRes res{sizeof(T) * s.range(1, 8) + s.range(0, 7)}, vl{s.range(1, 100)}, nulls{1 << 16};
    bool nullable = s.chance(75);
    data::value_store st{ty.ft(), &res, &vl, nullable ? &nulls : nullptr};
    PBT_CHECK(st.type() == ty.ft());
    auto rounds = s.range(1, 3);
    bool hard = false;
    for (u64 r = 0; r < rounds; ++r) {
        auto n = s.size(40);
        Vals model;
        for (std::size_t i = 0; i < n; ++i) {
            V v = gen_value(s, ty);
            v.null = nullable && s.chance(30);
            if (v.null) {
                st.append_null();
            } else {
                Res tmp;
                auto x = runtime<T>(v, &tmp);
                st.append<T>(x);
            }
            model.push_back(std::move(v));
            if (s.chance(10)) res.end_current_page();
        }
        PBT_EQ(st.count(), n);
        PBT_EQ(st.empty(), n == 0);
        std::size_t i = 0;
        auto e = st.end<T>();
        for (auto p = st.begin<T>(); p != e;) {
            PBT_CHECK(i < n, "more values than were added");
            PBT_CHECK(p.valid());
            PBT_CHECK(p.is_null() == model[i].null, "value ", i, " of ", n, ": is_null is ", p.is_null(), ", expected ", model[i].null);
            if (!model[i].null) {
                auto a = of<T>(*p, k);
                PBT_CHECK(same(a, model[i]), "value ", i, " of ", n, " is ", a, ", expected ", model[i]);
            }
            ++i;
            if (s.flip()) {
                ++p;
            } else {
                auto q = p++;
                PBT_EQ(q.is_null(), model[i - 1].null, "the iterator before the increment");
            }
        }
        PBT_EQ(i, n, "values found by iteration");
        if (nullable && res.pages.size() > 1 && nullable_mix(model)) hard = true;
        if (r + 1 < rounds) {
            st.reset();
            PBT_CHECK(st.empty() && st.count() == 0);
            PBT_CHECK(st.begin<T>() == st.end<T>());
            if (s.flip()) {
                res.pages.clear();
                vl.pages.clear();
                nulls.pages.clear();
            } else if (s.flip()) {
                nulls.end_current_page();
            }
        }
    }
    if (hard) s.nontrivial();
}
PBT_FACET(f_values, "values of a group come back with their nulls", "nulls among values in more than one page", .quick = 12000) {
    switch (s.idx(11)) {
        case 0: return values<std::int8_t>(s, K::boolean);
        case 1: return values<std::int32_t>(s, K::int4);
        case 2: return values<std::int64_t>(s, K::int8);
        case 3: return values<float>(s, K::float4);
        case 4: return values<double>(s, K::float8);
        case 5: return values<triple>(s, K::decimal);
        case 6: return values<text>(s, K::character);
        case 7: return values<binary>(s, K::octet);
        case 8: return values<dt::date>(s, K::date);
        case 9: return values<dt::time_of_day>(s, K::time_of_day);
        default: return values<dt::time_point>(s, K::time_point);
    }
}

PBT_FACET(f_result, "result rows of all partitions are read once, in order", "an empty or cleared partition among filled ones", .quick = 1500) {
    auto t = gen_table(s, 4, false);
    data::result_store st;
    PBT_CHECK(st.empty() && st.begin() == st.end() && st.partitions() == 0);
    std::vector<std::vector<Vals>> model;
    std::vector<bool> cleared;
    if (s.flip()) {
        auto n = s.range(0, 4);
        st.initialize(n, t.meta);
        model.resize(n);
        cleared.resize(n);
    } else {
        st.initialize(t.meta);
    }
    PBT_EQ(st.partitions(), model.size());
    auto steps = s.size(25);
    for (std::size_t k = 0; k < steps; ++k) {
        switch (s.idx(8)) {
            case 0:
                PBT_EQ(st.add_partition(), model.size());
                model.emplace_back();
                cleared.push_back(false);
                break;
            case 1:
                if (!model.empty() && s.flip()) {
                    auto i = s.idx(model.size() + 1);
                    st.clear_partition(i);
                    if (i < model.size()) {
                        model[i].clear();
                        cleared[i] = true;
                    }
                }
                break;
            default: {
                if (model.empty()) break;
                auto i = s.idx(model.size());
                if (cleared[i]) break;
                auto v = gen_row(s, t);
                auto r = build(t, v);
                st.partition(i).append(r.ref());
                model[i].push_back(std::move(v));
            }
        }
        PBT_EQ(st.partitions(), model.size());
    }
    std::vector<Vals const*> all;
    std::size_t filled = 0;
    for (std::size_t i = 0; i < model.size(); ++i) {
        PBT_EQ(st.exists(i), !cleared[i], "partition ", i);
        if (!cleared[i]) PBT_EQ(st.partition(i).count(), model[i].size());
        for (auto&& v : model[i]) all.push_back(&v);
        filled += !model[i].empty();
    }
    PBT_CHECK(!st.exists(model.size()));
    PBT_EQ(st.empty(), all.empty());
    PBT_CHECK(*st.meta() == *t.meta);
    std::size_t i = 0;
    auto e = st.end();
    for (auto p = st.begin(); p != e;) {
        PBT_CHECK(i < all.size(), "more rows than were added");
        expect(t, *p, *all[i], "by iteration");
        expect(t, p.ref(), *all[i], "by reference");
        ++i;
        if (s.flip()) {
            ++p;
        } else {
            auto q = p++;
            expect(t, *q, *all[i - 1], "before the increment");
        }
    }
    PBT_EQ(i, all.size(), "rows found by iteration");
    if (filled > 1 && filled < model.size()) s.nontrivial();
}

PBT_FACET(f_writers, "writers fill partitions of one result side by side", "two or more writers", .quick = 150, .nondet = true, .fuzz = false) {
    auto t = gen_table(s, 3, false);
    data::result_store st;
    st.initialize(t.meta);
    auto n = s.range(1, 4);
    std::vector<std::vector<Vals>> in(n);
    for (auto&& x : in) {
        auto m = s.range(0, 20);
        for (u64 i = 0; i < m; ++i) x.push_back(gen_row(s, t));
    }
    std::vector<std::size_t> where(n);
    std::vector<std::thread> th;
    for (std::size_t w = 0; w < n; ++w) {
        th.emplace_back([&, w] {
            where[w] = st.add_partition();
            for (auto&& v : in[w]) {
                auto r = build(t, v);
                st.partition(where[w]).append(r.ref());
            }
        });
    }
    for (auto&& x : th) x.join();
    PBT_EQ(st.partitions(), n);
    auto sorted = where;
    std::sort(sorted.begin(), sorted.end());
    for (std::size_t i = 0; i < n; ++i) PBT_EQ(sorted[i], i, "partition numbers are 0 to n-1");
    for (std::size_t w = 0; w < n; ++w) {
        auto& p = st.partition(where[w]);
        PBT_EQ(p.count(), in[w].size());
        std::size_t i = 0;
        for (auto q = p.begin(); q != p.end(); ++q, ++i) expect(t, *q, in[w][i], "writer's rows");
        PBT_EQ(i, in[w].size());
    }
    if (n > 1) s.nontrivial();
}

// ---- loose values
data::any to_any(V const& v, Res* r) {
    using data::any;
    if (v.null) return {};
    switch (v.k) {
        case K::boolean: return any{std::in_place_type<bool>, v.i != 0};
        case K::int1: return any{std::in_place_type<std::int8_t>, static_cast<std::int8_t>(v.i)};
        case K::int2: return any{std::in_place_type<std::int16_t>, static_cast<std::int16_t>(v.i)};
        case K::int4: return any{std::in_place_type<std::int32_t>, static_cast<std::int32_t>(v.i)};
        case K::int8: return any{std::in_place_type<std::int64_t>, v.i};
        case K::float4: return any{std::in_place_type<float>, v.f};
        case K::float8: return any{std::in_place_type<double>, v.d};
        case K::decimal: return any{std::in_place_type<triple>, v.t};
        case K::character: return any{std::in_place_type<text>, text{r, v.s}};
        case K::octet: return any{std::in_place_type<binary>, binary{r, v.s}};
        case K::date: return any{std::in_place_type<dt::date>, runtime<dt::date>(v, r)};
        case K::time_of_day: return any{std::in_place_type<dt::time_of_day>, runtime<dt::time_of_day>(v, r)};
        case K::time_point: return any{std::in_place_type<dt::time_point>, runtime<dt::time_point>(v, r)};
        case K::blob: return any{std::in_place_type<lob::blob_reference>, lob::blob_reference{static_cast<u64>(v.i), lob::lob_data_provider::datastore}};
        default: return any{std::in_place_type<lob::clob_reference>, lob::clob_reference{static_cast<u64>(v.i), lob::lob_data_provider::datastore}};
    }
}
template <class T>
bool wrong_kind(data::any const& a) {
    return throws<std::exception>([&] { (void) a.to<T>(); });
}
std::size_t any_slot(V const& v) {
    switch (v.k) {
        case K::boolean:
        case K::int1: return 2;
        case K::int2: return 3;
        case K::int4: return 4;
        case K::int8: return 5;
        case K::float4: return 6;
        case K::float8: return 7;
        case K::character: return 8;
        case K::octet: return 9;
        case K::decimal: return 10;
        case K::date: return 11;
        case K::time_of_day: return 12;
        case K::time_point: return 13;
        case K::blob: return 14;
        default: return 15;
    }
}
char const* slot_name[] = {"empty", "error", "int1", "int2", "int4", "int8", "float4", "float8", "character", "octet", "decimal", "date", "time_of_day", "time_point", "blob", "clob"};
bool sql_same(V const& a, V const& b) {  // equality of loose values: same kind, == of the value
    if (a.null || b.null) return a.null && b.null;
    if (any_slot(a) != any_slot(b)) return false;
    if (a.k == K::float4) return a.f == b.f;
    if (a.k == K::float8) return a.d == b.d;
    if (a.k == K::boolean || b.k == K::boolean) return a.i == b.i;
    V x = a;
    x.k = b.k;
    return same(x, b, true);
}
PBT_FACET(f_any, "loose values are told apart by kind and content", "two values of one kind", .quick = 5000) {
    Res r, r2;
    auto one = [&](V const* near) {
        if (near && s.chance(50)) {
            V v = *near;
            if (s.chance(50)) {
                v.i ^= static_cast<i64>(s.range(0, 1));
                if (!v.s.empty() && s.flip()) v.s.back() = static_cast<char>(v.s.back() ^ 1);
            }
            if (v.k == K::boolean) v.i = v.i & 1;
            if (v.k == K::int1) v.i = static_cast<std::int8_t>(v.i);
            if (v.k == K::int2) v.i = static_cast<std::int16_t>(v.i);
            if (v.k == K::int4) v.i = static_cast<std::int32_t>(v.i);
            if (v.k == K::time_of_day) v.i %= 86400000000000LL;
            return v;
        }
        Ty t = gen_type(s);
        V v = gen_value(s, t);
        v.null = s.chance(10);
        return v;
    };
    V a = one(nullptr), b = one(&a);
    auto x = to_any(a, &r), y = to_any(b, &r2);
    PBT_EQ(x.empty(), a.null);
    PBT_EQ(static_cast<bool>(x), !a.null);
    PBT_CHECK(!x.error());
    PBT_EQ(x.type_index(), a.null ? 0 : any_slot(a));
    PBT_EQ(std::string(type_name(x)), std::string(slot_name[x.type_index()]));
    auto want = sql_same(a, b);
    PBT_CHECK((x == y) == want, a, " and ", b, " compare ", x == y);
    PBT_EQ(x != y, !want);
    PBT_EQ(y == x, want);
    auto slot = x.type_index();
    PBT_EQ(wrong_kind<std::int8_t>(x), slot != 2);
    PBT_EQ(wrong_kind<bool>(x), slot != 2);
    PBT_EQ(wrong_kind<std::int16_t>(x), slot != 3);
    PBT_EQ(wrong_kind<std::int32_t>(x), slot != 4);
    PBT_EQ(wrong_kind<std::int64_t>(x), slot != 5);
    PBT_EQ(wrong_kind<float>(x), slot != 6);
    PBT_EQ(wrong_kind<double>(x), slot != 7);
    PBT_EQ(wrong_kind<text>(x), slot != 8);
    PBT_EQ(wrong_kind<binary>(x), slot != 9);
    PBT_EQ(wrong_kind<triple>(x), slot != 10);
    PBT_EQ(wrong_kind<dt::date>(x), slot != 11);
    PBT_EQ(wrong_kind<dt::time_of_day>(x), slot != 12);
    PBT_EQ(wrong_kind<dt::time_point>(x), slot != 13);
    PBT_EQ(wrong_kind<lob::blob_reference>(x), slot != 14);
    PBT_EQ(wrong_kind<lob::clob_reference>(x), slot != 15);
    switch (slot) {
        case 2: PBT_EQ(static_cast<i64>(x.to<std::int8_t>()), a.i); break;
        case 3: PBT_EQ(static_cast<i64>(x.to<std::int16_t>()), a.i); break;
        case 4: PBT_EQ(static_cast<i64>(x.to<std::int32_t>()), a.i); break;
        case 5: PBT_EQ(x.to<std::int64_t>(), a.i); break;
        case 8: PBT_EQ(static_cast<std::string>(x.to<text>()), a.s); break;
        case 9: PBT_EQ(static_cast<std::string>(x.to<binary>()), a.s); break;
        default: break;
    }
    // so is a failed evaluation, which is neither empty nor a value
    using executor::expr::error;
    using executor::expr::error_kind;
    auto ek = [&] { return static_cast<error_kind>(s.idx(13)); };
    auto e1 = ek(), e2 = ek();
    data::any f1{std::in_place_type<error>, error{e1}}, f2{std::in_place_type<error>, error{e2}};
    PBT_CHECK(f1.error() && !f1 && !f1.empty() && f1 != x && f1.to<error>().kind() == e1);
    PBT_EQ(f1 == f2, e1 == e2);
    // a reference to a column position is a value of its own kind
    data::any pos{std::in_place_type<std::size_t>, static_cast<std::size_t>(a.i)};
    PBT_CHECK(pos != x && pos == data::any(std::in_place_type<std::size_t>, static_cast<std::size_t>(a.i)));
    if (any_slot(a) == any_slot(b) && !a.null && !b.null) s.nontrivial();
}

PBT_FACET(f_sequence, "sequences of loose values keep length, order and error", "at least two sequences assigned to one object", .quick = 20000) {
    Res r;
    auto seq = [&] {
        std::vector<data::any> o;
        auto n = s.size(8);
        for (std::size_t i = 0; i < n; ++i) {
            Ty t = gen_type(s, false);
            V v = gen_value(s, t, 80);
            v.null = s.chance(15) || v.k == K::float4 || v.k == K::float8;
            o.push_back(to_any(v, &r));
        }
        return o;
    };
    data::any_sequence a;
    std::vector<data::any> m;
    std::shared_ptr<error::error_info> err;
    auto check = [&](data::any_sequence const& q, std::vector<data::any> const& w) {
        PBT_EQ(q.size(), w.size());
        PBT_EQ(q.empty(), w.empty());
        PBT_EQ(static_cast<std::size_t>(q.end() - q.begin()), w.size());
        auto it = q.begin();
        for (std::size_t i = 0; i < w.size(); ++i, ++it) {
            PBT_CHECK(q[i] == w[i] && *it == w[i] && q.view()[i] == w[i], "element ", i);
        }
    };
    auto steps = s.range(1, 8);
    int assigned = 0;
    for (u64 k = 0; k < steps; ++k) {
        switch (s.idx(6)) {
            case 0: {
                m = seq();
                a.assign(m);
                ++assigned;
                break;
            }
            case 1: {
                m = seq();
                a.assign(data::any_sequence::view_type{m});
                ++assigned;
                break;
            }
            case 2:
                err = std::make_shared<error::error_info>();
                a.error(err);
                break;
            case 3:
                a.clear();
                m.clear();
                err = nullptr;
                break;
            case 4: {
                data::any_sequence b{a};
                check(b, m);
                PBT_CHECK(b.error() == err, "copy keeps the error");
                PBT_CHECK(b == a);
                data::any_sequence c{std::move(b)};
                check(c, m);
                PBT_CHECK(c.error() == err, "move keeps the error");
                a = c;
                break;
            }
            default: {
                auto w = seq();
                data::any_sequence b{w};
                bool eq = w.size() == m.size();
                for (std::size_t i = 0; eq && i < m.size(); ++i) eq = w[i] == m[i];
                PBT_EQ(a == b, eq);
                PBT_EQ(a != b, !eq);
                if (!m.empty()) {  // shorter by one, or with one element changed
                    auto d = m;
                    if (s.flip()) d.pop_back();
                    else d[s.idx(d.size())] = data::any{std::in_place_type<std::size_t>, 3UL};
                    PBT_CHECK(a != data::any_sequence{d} && data::any_sequence{d} != a);
                }
            }
        }
        check(a, m);
        PBT_CHECK(a.error() == err);
    }
    if (assigned > 1) s.nontrivial();
}
}  // namespace
