// P17: comparison, equality, hash and partition of rows. Oracle: an order on values written independently (rec.h cmp3).
#include <jogasaki/executor/compare_info.h>
#include <jogasaki/executor/comparator.h>
#include <jogasaki/executor/equal_to.h>
#include <jogasaki/executor/hash.h>
#include <jogasaki/executor/less.h>
#include <jogasaki/executor/partitioner.h>
#include <algorithm>
#include <set>
#include "rec.h"
using namespace rec;
using namespace jogasaki;
using executor::compare_info;
using executor::ordering;

namespace {
// the same SQL value in another representation
V respell(Src& s, V v) {
    if (v.null) return v;
    switch (v.k) {
        case K::float4:
            if (std::isnan(v.f)) {
                std::uint32_t b = 0x7fc00000U | static_cast<std::uint32_t>(s.range(0, 255)) | (s.flip() ? 0x80000000U : 0U);
                std::memcpy(&v.f, &b, 4);
            } else if (v.f == 0 && s.flip()) v.f = -v.f;
            break;
        case K::float8:
            if (std::isnan(v.d)) {
                u64 b = 0x7ff8000000000000ULL | static_cast<u64>(s.range(0, 255)) | (s.flip() ? 1ULL << 63 : 0);
                std::memcpy(&v.d, &b, 8);
            } else if (v.d == 0 && s.flip()) v.d = -v.d;
            break;
        case K::decimal: {
            unsigned __int128 c = static_cast<unsigned __int128>(v.t.coefficient_high()) << 64 | v.t.coefficient_low();
            int e = v.t.exponent();
            if (s.flip()) {
                for (auto n = s.range(0, 4); n > 0 && c != 0 && c % 10 == 0; --n) c /= 10, ++e;
            } else {
                for (auto n = s.range(0, 4); n > 0 && c < p10(37); --n) c *= 10, --e;
            }
            v.t = from_int(v.t.negative(), c, -e);
            break;
        }
        default: break;
    }
    return v;
}
struct Cols {
    std::vector<Ty> t;
    std::vector<bool> ptr;  // internal pointer fields take no part in comparison
};
std::shared_ptr<meta::record_meta> layout(Cols const& c, std::vector<bool> const& nullable) {
    std::vector<meta::field_type> f;
    boost::dynamic_bitset<std::uint64_t> b;
    for (std::size_t i = 0; i < c.t.size(); ++i) {
        if (c.ptr[i]) f.emplace_back(meta::field_enum_tag<K::pointer>);
        else f.emplace_back(c.t[i].ft());
        b.push_back(nullable[i]);
    }
    return std::make_shared<meta::record_meta>(std::move(f), std::move(b));
}
Cols gen_cols(Src& s) {
    Cols c;
    auto n = 1 + s.size(5);
    for (std::size_t i = 0; i < n; ++i) {
        c.t.push_back(gen_type(s, s.chance(10)));
        c.ptr.push_back(s.chance(4));
    }
    return c;
}
std::vector<bool> gen_null(Src& s, std::size_t n, std::vector<V> const* must = nullptr) {
    std::vector<bool> r(n);
    for (std::size_t i = 0; i < n; ++i) r[i] = s.chance(60) || (must && (*must)[i].null);
    return r;
}
V special(Src& s, Ty const& t) {
    V v = gen_value(s, t, 60);
    if (v.k == K::float4 && s.chance(30)) v.f = s.pick({0.0F, -0.0F, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::nanf(""), -std::nanf("")});
    if (v.k == K::float8 && s.chance(30)) v.d = s.pick({0.0, -0.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan(""), -std::nan("")});
    if (v.k == K::decimal && s.chance(20)) v.t = triple{v.t.sign(), v.t.coefficient_high(), v.t.coefficient_low(), static_cast<std::int32_t>(s.range(-40, 5))};
    return v;
}
std::vector<V> gen_vals(Src& s, Cols const& c) {
    std::vector<V> r;
    for (auto&& t : c.t) {
        V v = special(s, t);
        v.null = s.chance(20);
        r.push_back(v);
    }
    return r;
}
// a near copy: equal in some columns, next to it or different in others
std::vector<V> gen_near(Src& s, Cols const& c, std::vector<V> const& a, int keep) {
    std::vector<V> r;
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (s.chance(keep)) { r.push_back(respell(s, a[i])); continue; }
        V v = special(s, c.t[i]);
        if (!a[i].null && s.flip()) {
            v = a[i];
            switch (v.k) {
                case K::character: case K::octet:
                    if (v.s.empty() || s.flip()) v.s += static_cast<char>(s.range(0, 255));
                    else if (s.flip()) v.s.pop_back();
                    else v.s[s.idx(v.s.size())] ^= static_cast<char>(1 << s.range(0, 7));
                    break;
                case K::time_point: if (s.flip()) v.n = static_cast<std::int32_t>((v.n + 1) % 1000000000); else v.i += 1; break;
                case K::date: v.i += s.flip() ? 1 : -1; break;
                case K::int8: v.i = static_cast<i64>(static_cast<u64>(v.i) ^ (1ULL << s.range(0, 63))); break;
                case K::float8: v.d = std::nextafter(v.d, s.flip() ? 1e300 : -1e300); break;
                case K::float4: v.f = std::nextafterf(v.f, s.flip() ? 1e30F : -1e30F); break;
                default: v = special(s, c.t[i]);
            }
        }
        v.null = s.chance(20);
        r.push_back(v);
    }
    return r;
}
Row build(Cols const& c, std::vector<bool> const& nullable, std::vector<V> const& v, Src& s) {
    Row r{layout(c, nullable)};
    std::memset(r.mem, static_cast<int>(s.pick({0, 0x5a, 0xff})), r.meta->record_size());
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (c.ptr[i]) {
            if (nullable[i]) r.ref().set_null(r.meta->nullity_offset(i), v[i].null);
            r.ref().set_value<void*>(r.meta->value_offset(i), reinterpret_cast<void*>(s.draw(~0ULL)));
            continue;
        }
        r.set(i, v[i]);
    }
    return r;
}
int model(Cols const& c, std::vector<V> const& a, std::vector<V> const& b, std::vector<ordering> const& o) {
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (c.ptr[i]) continue;
        int r = a[i].null || b[i].null ? static_cast<int>(b[i].null) - static_cast<int>(a[i].null) : cmp3(a[i], b[i]);
        if (!o.empty() && o[i] == ordering::descending) r = -r;
        if (r) return r;
    }
    return 0;
}
std::vector<ordering> gen_orders(Src& s, std::size_t n) {
    if (s.chance(20)) return {};
    std::vector<ordering> r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(s.pick({ordering::ascending, ordering::descending, ordering::undefined}));
    return r;
}
int sg(int x) { return (x > 0) - (x < 0); }

PBT_FACET(f_order, "rows compare column by column in the SQL order, whatever their layouts", "rows that agree in the first column", .quick = 30000) {
    auto c = gen_cols(s);
    auto a = gen_vals(s, c);
    auto b = gen_near(s, c, a, 60);
    auto n = c.t.size();
    auto o = gen_orders(s, n);
    auto la = gen_null(s, n, &a), lb = gen_null(s, n, &b);
    auto ra = build(c, la, a, s), rb = build(c, lb, b, s);
    bool defaults = s.chance(10);
    if (defaults) o.clear();
    compare_info ab = defaults ? compare_info{*ra.meta, *rb.meta} : compare_info{*ra.meta, *rb.meta, o};
    compare_info ba{*rb.meta, *ra.meta, o}, aa{*ra.meta, o};
    PBT_CHECK(&ab.left() == ra.meta.get() && &ab.right() == rb.meta.get() && &aa.right() == ra.meta.get());
    for (std::size_t i = 0; i < n; ++i) PBT_EQ(ab.opposite(i), !o.empty() && o[i] == ordering::descending);
    auto m = model(c, a, b, o);
    auto show_row = [](std::vector<V> const& v) { std::string r; for (auto&& x : v) r += cat(x, " "); return r; };
    PBT_EQ(sg(executor::comparator{ab}(ra.ref(), rb.ref())), m, show_row(a), "<=> ", show_row(b));
    PBT_EQ(sg(executor::comparator{ba}(rb.ref(), ra.ref())), -m, show_row(b), "<=> ", show_row(a));
    PBT_EQ(sg(executor::comparator{aa}(ra.ref(), ra.ref())), 0, "with itself ", show_row(a));
    auto again = respell(s, a[0]);
    (void) again;
    if (n > 1 && !c.ptr[0] && model({{c.t[0]}, {false}}, {a[0]}, {b[0]}, {}) == 0) s.nontrivial();
}

PBT_FACET(f_sort, "rows sort into one order in which equal rows are together", "eight or more rows", .quick = 3000) {
    auto c = gen_cols(s);
    auto n = c.t.size();
    auto o = gen_orders(s, n);
    auto la = std::vector<bool>(n, true);
    std::vector<std::vector<V>> vs;
    auto k = s.size(30);
    for (std::size_t i = 0; i < k; ++i) vs.push_back(vs.empty() || s.chance(20) ? gen_vals(s, c) : gen_near(s, c, vs[s.idx(vs.size())], 70));
    std::vector<Row> rows;
    for (auto&& v : vs) rows.push_back(build(c, la, v, s));
    if (rows.empty()) return;
    compare_info ci{*rows[0].meta, o};
    executor::comparator cmp{ci};
    std::vector<std::size_t> ix(k);
    for (std::size_t i = 0; i < k; ++i) ix[i] = i;
    std::sort(ix.begin(), ix.end(), [&](auto x, auto y) { return cmp(rows[x].ref(), rows[y].ref()) < 0; });
    for (std::size_t i = 1; i < k; ++i)
        for (std::size_t j = 0; j < i; ++j) PBT_CHECK(model(c, vs[ix[j]], vs[ix[i]], o) <= 0, "sorted position ", j, " and ", i);
    if (k >= 8) s.nontrivial();
}

PBT_FACET(f_hash, "equal rows have one hash and go to one partition, whatever their layout and spelling", "a respelled value", .quick = 30000) {
    auto c = gen_cols(s);
    auto n = c.t.size();
    auto a = gen_vals(s, c);
    auto b = gen_near(s, c, a, s.chance(80) ? 100 : 90);
    auto la = gen_null(s, n, &a), lb = gen_null(s, n, &b);
    auto ra = build(c, la, a, s), rb = build(c, lb, b, s);
    executor::hash ha{ra.meta.get()}, hb{rb.meta.get()};
    PBT_EQ(ha(ra.ref()), ha(ra.ref()));
    PBT_EQ(ha(ra.mem), ha(ra.ref()), "hash of the record at the address");
    auto parts = static_cast<std::size_t>(s.range(1, 200));
    executor::partitioner pa{parts, ra.meta}, pb{parts, rb.meta};
    PBT_CHECK(pa(ra.ref()) < parts && pb(rb.ref()) < parts, "a partition outside");
    if (model(c, a, b, {}) == 0) {
        std::string t;
        bool spelled = false;
        for (std::size_t i = 0; i < n; ++i) { t += cat(a[i], "=", b[i], " "); spelled |= !same(a[i], b[i]) || (a[i].k == K::float8 && std::isnan(a[i].d)); }
        PBT_EQ(ha(ra.ref()), hb(rb.ref()), "hash of equal rows ", t);
        PBT_EQ(pa(ra.ref()), pb(rb.ref()), "partition of equal rows ", t);
        if (spelled) s.nontrivial();
    }
}

PBT_FACET(f_spread, "different keys are spread over the partitions", "sixteen keys or more", .quick = 500) {
    Cols c;
    c.t.emplace_back();
    c.t.back().k = s.pick({K::int4, K::int8, K::character, K::octet, K::float8});  // the hashes of the others are takatori's
    c.ptr.push_back(false);
    auto parts = static_cast<std::size_t>(s.range(2, 10));
    auto start = s.range(0, 100000);
    std::set<std::size_t> used;
    for (i64 i = 0; i < 256; ++i) {
        V v;
        v.k = c.t[0].k;
        v.i = start + i;
        v.n = static_cast<std::int32_t>(i);
        v.d = static_cast<double>(start + i);
        v.s = std::to_string(start + i);
        v.t = triple{start + i, 0};
        auto r = build(c, {true}, {v}, s);
        used.insert(executor::partitioner{parts, r.meta}(r.ref()));
    }
    PBT_CHECK(used.size() > 1, "all of 256 keys in one partition of ", parts);
    s.nontrivial();
}

template <K k, class T>
void scalar(T const& x, T const& y, V const& a, V const& b) {
    auto m = cmp3(a, b);
    executor::less l{};
    PBT_EQ(l(x, y), m < 0, a, " less than ", b);
    PBT_EQ(l(y, x), m > 0, b, " less than ", a);
    PBT_EQ(executor::equal_to<T>(x, y), m == 0, a, " equal to ", b);
    PBT_EQ(executor::equal_to<T>(y, x), m == 0, b, " equal to ", a);
    PBT_CHECK(!l(x, x) && !l(y, y) && executor::equal_to<T>(x, x) && executor::equal_to<T>(y, y), "with itself");
}
PBT_FACET(f_scalar, "two values are less, equal or greater, exactly one of them", "equal values", .quick = 60000) {
    Cols c;
    c.t.push_back(gen_type(s, false));
    c.ptr.push_back(false);
    std::vector<V> a{special(s, c.t[0])};
    auto b = gen_near(s, c, a, 40);
    a[0].null = b[0].null = false;
    V x = a[0], y = b[0];
    Res res;
    switch (x.k) {
        case K::int1: case K::int2: case K::int4: case K::boolean: scalar<K::int4>(static_cast<std::int32_t>(x.i), static_cast<std::int32_t>(y.i), x, y); break;
        case K::int8: scalar<K::int8>(x.i, y.i, x, y); break;
        case K::float4: scalar<K::float4>(x.f, y.f, x, y); break;
        case K::float8: scalar<K::float8>(x.d, y.d, x, y); break;
        case K::decimal: scalar<K::decimal>(x.t, y.t, x, y); break;
        case K::character: scalar<K::character>(text{&res, x.s}, text{&res, y.s}, x, y); break;
        case K::octet: scalar<K::octet>(binary{&res, x.s}, binary{&res, y.s}, x, y); break;
        case K::date: scalar<K::date>(dt::date{x.i}, dt::date{y.i}, x, y); break;
        case K::time_of_day: scalar<K::time_of_day>(dt::time_of_day{std::chrono::nanoseconds{x.i}}, dt::time_of_day{std::chrono::nanoseconds{y.i}}, x, y); break;
        case K::time_point: scalar<K::time_point>(dt::time_point{dt::time_point::offset_type{x.i}, std::chrono::nanoseconds{x.n}}, dt::time_point{dt::time_point::offset_type{y.i}, std::chrono::nanoseconds{y.n}}, x, y); break;
        default: return;
    }
    if (cmp3(x, y) == 0) s.nontrivial();
}
}  // namespace
