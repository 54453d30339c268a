// Column types, values and records shared by the harnesses that work on rows.
#pragma once
#include <jogasaki/accessor/binary.h>
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/accessor/text.h>
#include <jogasaki/lob/blob_reference.h>
#include <jogasaki/lob/clob_reference.h>
#include <jogasaki/memory/paged_memory_resource.h>
#include <jogasaki/meta/field_type.h>
#include <jogasaki/meta/record_meta.h>
#include <takatori/datetime/date.h>
#include <takatori/datetime/time_of_day.h>
#include <takatori/datetime/time_point.h>
#include <takatori/decimal/triple.h>
#include <cmath>
#include <cstring>
#include <list>
#include <memory>
#include <optional>
#include <vector>
#include "pbt.h"

namespace rec {
using namespace pbt;
using K = jogasaki::meta::field_type_kind;
using takatori::decimal::triple;
namespace dt = takatori::datetime;
using jogasaki::accessor::binary;
using jogasaki::accessor::text;

// exact-size blocks, so that the sanitizer sees any access beyond a value
struct Res : jogasaki::memory::paged_memory_resource {
    std::list<std::unique_ptr<char[]>> blocks;
    std::size_t total = 0;
    void* do_allocate(std::size_t n, std::size_t) override {
        blocks.emplace_back(new char[n ? n : 1]);
        total += n;
        return blocks.back().get();
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(boost::container::pmr::memory_resource const& o) const noexcept override { return this == &o; }
    std::size_t do_page_remaining(std::size_t) const noexcept override { return 1 << 20; }
    void end_current_page() override {}
};

struct Ty {
    K k = K::int4;
    bool varying = true;
    std::optional<std::size_t> len{}, prec{}, scale{};
    bool off = false;
    [[nodiscard]] jogasaki::meta::field_type ft() const {
        using namespace jogasaki::meta;
        switch (k) {
            case K::boolean: return field_type{field_enum_tag<K::boolean>};
            case K::int1: return field_type{field_enum_tag<K::int1>};
            case K::int2: return field_type{field_enum_tag<K::int2>};
            case K::int4: return field_type{field_enum_tag<K::int4>};
            case K::int8: return field_type{field_enum_tag<K::int8>};
            case K::float4: return field_type{field_enum_tag<K::float4>};
            case K::float8: return field_type{field_enum_tag<K::float8>};
            case K::decimal: return field_type{std::make_shared<decimal_field_option>(prec, scale)};
            case K::character: return field_type{std::make_shared<character_field_option>(varying, len)};
            case K::octet: return field_type{std::make_shared<octet_field_option>(varying, len)};
            case K::date: return field_type{field_enum_tag<K::date>};
            case K::time_of_day: return field_type{std::make_shared<time_of_day_field_option>(off)};
            case K::time_point: return field_type{std::make_shared<time_point_field_option>(off)};
            case K::blob: return field_type{field_enum_tag<K::blob>};
            case K::clob: return field_type{field_enum_tag<K::clob>};
            default: std::abort();
        }
    }
};

struct V {
    K k = K::int4;
    bool null = false;
    i64 i = 0;   // integers, days, seconds, nanoseconds of the day, object id
    std::int32_t n = 0;  // nanoseconds of a second
    float f = 0;
    double d = 0;
    std::string s{};
    triple t{};
};

inline std::ostream& operator<<(std::ostream& o, V const& v) {
    if (v.null) return o << "null";
    switch (v.k) {
        case K::float4: return o << v.f;
        case K::float8: return o << v.d;
        case K::decimal: return o << v.t;
        case K::character: return o << '"' << show(v.s) << '"';
        case K::octet: return o << "x'" << hex(v.s) << "'";
        case K::time_point: return o << v.i << "s+" << v.n << "ns";
        default: return o << v.i;
    }
}

// the same value, to the bit (any NaN equals any NaN)
inline bool same(V const& a, V const& b, bool zeros = false) {
    if (a.null || b.null) return a.null == b.null;
    auto feq = [&](auto x, auto y) {
        if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
        return x == y && (zeros || std::signbit(x) == std::signbit(y));
    };
    switch (a.k) {
        case K::float4: return feq(a.f, b.f);
        case K::float8: return feq(a.d, b.d);
        case K::decimal: return a.t == b.t;
        case K::character:
        case K::octet: return a.s == b.s;
        default: return a.i == b.i && a.n == b.n;
    }
}

inline void put(jogasaki::accessor::record_ref r, std::size_t off, V const& v, Res* res) {
    switch (v.k) {
        case K::boolean: r.set_value<std::int8_t>(off, static_cast<std::int8_t>(v.i)); break;
        case K::int1:  // the smaller integers take the place of int4 in a row
        case K::int2:
        case K::int4: r.set_value<std::int32_t>(off, static_cast<std::int32_t>(v.i)); break;
        case K::int8: r.set_value<std::int64_t>(off, v.i); break;
        case K::float4: r.set_value<float>(off, v.f); break;
        case K::float8: r.set_value<double>(off, v.d); break;
        case K::decimal: r.set_value<triple>(off, v.t); break;
        case K::character: r.set_value<text>(off, text{res, v.s}); break;
        case K::octet: r.set_value<binary>(off, binary{res, v.s}); break;
        case K::date: r.set_value<dt::date>(off, dt::date{v.i}); break;
        case K::time_of_day: r.set_value<dt::time_of_day>(off, dt::time_of_day{std::chrono::nanoseconds{v.i}}); break;
        case K::time_point: r.set_value<dt::time_point>(off, dt::time_point{dt::time_point::offset_type{v.i}, std::chrono::nanoseconds{v.n}}); break;
        case K::blob: r.set_value<jogasaki::lob::blob_reference>(off, jogasaki::lob::blob_reference{static_cast<u64>(v.i), jogasaki::lob::lob_data_provider::datastore}); break;
        case K::clob: r.set_value<jogasaki::lob::clob_reference>(off, jogasaki::lob::clob_reference{static_cast<u64>(v.i), jogasaki::lob::lob_data_provider::datastore}); break;
        default: std::abort();
    }
}

template <class R>
V get(R r, std::size_t off, K k) {
    V v;
    v.k = k;
    switch (k) {
        case K::boolean: v.i = r.template get_value<std::int8_t>(off); break;
        case K::int1:
        case K::int2:
        case K::int4: v.i = r.template get_value<std::int32_t>(off); break;
        case K::int8: v.i = r.template get_value<std::int64_t>(off); break;
        case K::float4: v.f = r.template get_value<float>(off); break;
        case K::float8: v.d = r.template get_value<double>(off); break;
        case K::decimal: v.t = r.template get_value<triple>(off); break;
        case K::character: v.s = static_cast<std::string>(r.template get_value<text>(off)); break;
        case K::octet: v.s = static_cast<std::string>(r.template get_value<binary>(off)); break;
        case K::date: v.i = r.template get_value<dt::date>(off).days_since_epoch(); break;
        case K::time_of_day: v.i = static_cast<i64>(r.template get_value<dt::time_of_day>(off).time_since_epoch().count()); break;
        case K::time_point: {
            auto p = r.template get_value<dt::time_point>(off);
            v.i = p.seconds_since_epoch().count();
            v.n = static_cast<std::int32_t>(p.subsecond().count());
            break;
        }
        case K::blob: v.i = static_cast<i64>(r.template get_value<jogasaki::lob::blob_reference>(off).object_id()); break;
        case K::clob: v.i = static_cast<i64>(r.template get_value<jogasaki::lob::clob_reference>(off).object_id()); break;
        default: std::abort();
    }
    return v;
}

constexpr K ALL[] = {K::boolean, K::int1, K::int2, K::int4, K::int8, K::float4, K::float8, K::decimal, K::character, K::octet, K::date,
    K::time_of_day, K::time_point, K::blob, K::clob};

inline Ty gen_type(Src& s, bool lobs = true, bool key = false) {
    Ty t;
    t.k = ALL[s.idx(lobs ? 15 : 13)];
    t.varying = s.flip();
    if (t.k == K::decimal) {
        t.prec = s.chance(20) ? 38 : s.range(1, 38);
        t.scale = s.range(0, *t.prec);
    }
    if (t.k == K::character || t.k == K::octet) {
        if (s.chance(80)) t.len = s.pick({1, 2, 3, 5, 8, 14, 15, 16, 17, 20, 33, 60});
        if (key && t.k == K::octet) t.varying = false;
        if (t.k == K::octet && !t.varying && !t.len) t.len = 4;
    }
    if (t.k == K::time_of_day || t.k == K::time_point) t.off = s.chance(20);
    return t;
}

inline std::size_t max_len(Ty const& t) { return t.len ? *t.len : (t.varying ? 70 : 1); }

inline triple from_int(bool neg, unsigned __int128 c, int scale) {
    return triple{neg ? -1 : 1, static_cast<u64>(c >> 64), static_cast<u64>(c), -scale};
}

inline unsigned __int128 p10(std::size_t n) {
    unsigned __int128 r = 1;
    while (n--) r *= 10;
    return r;
}

// a value that the column accepts
inline V gen_value(Src& s, Ty const& t, int small = 40) {
    V v;
    v.k = t.k;
    bool sm = s.chance(small);
    auto integer = [&](int bits) {
        i64 lo = bits == 64 ? INT64_MIN : -(1LL << (bits - 1)), hi = bits == 64 ? INT64_MAX : (1LL << (bits - 1)) - 1;
        if (sm) return static_cast<i64>(s.range(0, 4)) - 2;
        if (s.chance(30)) return s.flip() ? lo + static_cast<i64>(s.range(0, 2)) : hi - static_cast<i64>(s.range(0, 2));
        u64 x = s.draw(~0ULL) >> s.range(0, 63);
        if (s.flip()) x = ~x;
        if (bits == 64) return static_cast<i64>(x);
        return static_cast<i64>(static_cast<i64>(x << (64 - bits)) >> (64 - bits));
    };
    switch (t.k) {
        case K::boolean: v.i = s.flip(); break;
        case K::int1: v.i = integer(8); break;
        case K::int2: v.i = integer(16); break;
        case K::int4: v.i = integer(32); break;
        case K::int8: v.i = integer(64); break;
        case K::float4: v.f = sm ? static_cast<float>(s.range(0, 4)) - 2 : s.any_float(); break;
        case K::float8: v.d = sm ? static_cast<double>(s.range(0, 4)) - 2 : s.any_double(); break;
        case K::decimal: {
            auto p = t.prec ? *t.prec : 38;
            auto lim = p10(p);
            unsigned __int128 c = (static_cast<unsigned __int128>(s.draw(~0ULL)) << 64 | s.draw(~0ULL));
            if (sm) c = s.range(0, 2);
            else if (s.chance(20)) c = lim - 1 - s.range(0, 2);
            else if (s.chance(30)) c = (static_cast<unsigned __int128>(1) << s.range(0, 126)) - s.range(0, 1);
            else c >>= s.range(0, 127);
            c %= lim;
            v.t = from_int(s.flip(), c, static_cast<int>(t.scale ? *t.scale : 0));
            break;
        }
        case K::character:
        case K::octet: {
            auto n = std::min<u64>(max_len(t), sm ? s.range(0, 2) : s.range(0, max_len(t)));
            auto al = s.idx(3);
            for (u64 i = 0; i < n; ++i) {
                char c = al == 0 ? static_cast<char>('a' + s.range(0, 1)) : al == 1 ? "\x01 \x7f\x80\xff\xfe~A"[s.idx(8)] : static_cast<char>(s.range(1, 255));
                if (t.k == K::octet && s.chance(15)) c = '\0';
                v.s += c;
            }
            break;
        }
        case K::date: v.i = sm ? static_cast<i64>(s.range(0, 4)) - 2 : static_cast<i64>(s.range(0, 8000000)) - 4000000; break;
        case K::time_of_day: v.i = static_cast<i64>(s.chance(20) ? 86399999999999ULL - s.range(0, 2) : sm ? s.range(0, 3) : s.range(0, 86399999999999ULL)); break;
        case K::time_point:
            v.i = sm ? static_cast<i64>(s.range(0, 4)) - 2 : static_cast<i64>(s.range(0, 2000000000000ULL)) - 1000000000000LL;
            v.n = static_cast<std::int32_t>(sm ? s.range(0, 2) : s.chance(20) ? 999999999 : s.range(0, 999999999));
            break;
        case K::blob:
        case K::clob: v.i = static_cast<i64>(s.any_u64()); break;
        default: std::abort();
    }
    return v;
}

// a record of the given layout with its own memory, of exactly the record's size
struct Row {
    std::shared_ptr<jogasaki::meta::record_meta> meta;
    std::shared_ptr<Res> res = std::make_shared<Res>();
    void* mem = nullptr;
    explicit Row(std::shared_ptr<jogasaki::meta::record_meta> m) : meta(std::move(m)) {
        auto a = std::max<std::size_t>(meta->record_alignment(), 1);
        auto n = std::max<std::size_t>(meta->record_size(), 1);
        if (posix_memalign(&mem, std::max<std::size_t>(a, 8), n) != 0) std::abort();
        std::memset(mem, 0, n);
    }
    Row(Row const&) = delete;
    Row(Row&& o) noexcept : meta(o.meta), res(o.res), mem(o.mem) { o.mem = nullptr; }
    ~Row() { std::free(mem); }
    [[nodiscard]] jogasaki::accessor::record_ref ref() const { return {mem, meta->record_size()}; }
    void set(std::size_t i, V const& v) {
        if (meta->nullable(i)) ref().set_null(meta->nullity_offset(i), v.null);
        if (!v.null) put(ref(), meta->value_offset(i), v, res.get());
    }
    [[nodiscard]] V at(std::size_t i) const {
        V v;
        v.k = meta->at(i).kind();
        if (meta->nullable(i) && ref().is_null(meta->nullity_offset(i))) { v.null = true; return v; }
        return get(ref(), meta->value_offset(i), v.k);
    }
};

inline std::shared_ptr<jogasaki::meta::record_meta> make_meta(std::vector<Ty> const& ts, std::vector<bool> const& nullable) {
    std::vector<jogasaki::meta::field_type> f;
    boost::dynamic_bitset<std::uint64_t> b;
    for (auto&& t : ts) f.emplace_back(t.ft());
    for (auto x : nullable) b.push_back(x);
    return std::make_shared<jogasaki::meta::record_meta>(std::move(f), std::move(b));
}

inline int sgn(i64 x) { return x < 0 ? -1 : x > 0; }
// SQL order of two non-null values of one kind; NaN is equal to itself and above everything
inline int cmp3(V const& a, V const& b) {
    auto f = [](auto x, auto y) {
        if (std::isnan(x) || std::isnan(y)) return static_cast<int>(std::isnan(x)) - static_cast<int>(std::isnan(y));
        return x < y ? -1 : x > y ? 1 : 0;
    };
    switch (a.k) {
        case K::float4: return f(a.f, b.f);
        case K::float8: return f(a.d, b.d);
        case K::decimal: {
            auto sa = a.t.sign(), sb = b.t.sign();
            if (sa != sb) return sa < sb ? -1 : 1;
            if (sa == 0) return 0;
            // compare digit strings aligned at the larger exponent
            auto digits = [](triple const& t) {
                unsigned __int128 c = static_cast<unsigned __int128>(t.coefficient_high()) << 64 | t.coefficient_low();
                std::string r;
                for (; c; c /= 10) r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(c % 10)));
                return r;
            };
            auto da = digits(a.t), db = digits(b.t);
            i64 ma = static_cast<i64>(da.size()) + a.t.exponent(), mb = static_cast<i64>(db.size()) + b.t.exponent();
            int r = 0;
            if (ma != mb) r = ma < mb ? -1 : 1;
            else {
                while (da.size() < db.size()) da += '0';
                while (db.size() < da.size()) db += '0';
                r = da < db ? -1 : da > db ? 1 : 0;
            }
            return sa < 0 ? -r : r;
        }
        case K::character:
        case K::octet: return sgn(a.s.compare(b.s));
        case K::blob:
        case K::clob: return static_cast<u64>(a.i) < static_cast<u64>(b.i) ? -1 : a.i != b.i;
        default: return a.i != b.i ? (a.i < b.i ? -1 : 1) : (a.n < b.n ? -1 : a.n > b.n);
    }
}
}  // namespace rec
