// P13: values of a result set on the wire. Oracle: an independent encoder written from the published format, round trip
// through the reader, and exhaustive truncation of every produced entry.
#include <jogasaki/serializer/base128v.h>
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/serializer/value_input_exception.h>
#include <jogasaki/serializer/value_output.h>
#include <jogasaki/serializer/value_writer.h>
#include <memory>
#include "pbt.h"
using namespace pbt;
using namespace jogasaki::serializer;
namespace dt = takatori::datetime;
using takatori::decimal::triple;
using takatori::util::buffer_view;
using takatori::util::const_bitset_view;
using et = entry_type;

namespace {
using big = __int128;
struct Val {
    et kind = et::null;
    i64 i = 0;
    u64 u = 0, u2 = 0, u3 = 0;
    std::int32_t a = 0, b = 0, c = 0;
    double d = 0;
    float f = 0;
    std::string s{};
    triple t{};
};
void uv(std::string& o, u64 v) {
    for (int i = 0; i < 8; ++i) {
        auto g = v & 0x7f;
        v >>= 7;
        if (v == 0) { o += static_cast<char>(g); return; }
        o += static_cast<char>(g | 0x80);
    }
    o += static_cast<char>(v);
}
void sv(std::string& o, i64 v) { uv(o, v < 0 ? ~(static_cast<u64>(v) << 1) : static_cast<u64>(v) << 1); }
void be(std::string& o, u64 v, int n) {
    for (int i = n - 1; i >= 0; --i) o += static_cast<char>(v >> (8 * i));
}
void int_(std::string& o, i64 v) {
    if (v >= 0 && v <= 63) o += static_cast<char>(v);
    else if (v >= -16 && v <= -1) o += static_cast<char>(0xc0 + v + 16);
    else { o += '\xe9'; sv(o, v); }
}
void sized(std::string& o, u64 n, unsigned embed, u64 lim, unsigned header) {
    if (n >= 1 && n <= lim) o += static_cast<char>(embed + n - 1);
    else { o += static_cast<char>(header); uv(o, n); }
}
std::string reference(Val const& v) {
    std::string o;
    switch (v.kind) {
        case et::null: o += '\xe8'; break;
        case et::end_of_contents: o += '\xfe'; break;
        case et::int_: int_(o, v.i); break;
        case et::float4: { std::uint32_t x; std::memcpy(&x, &v.f, 4); o += '\xea'; be(o, x, 4); break; }
        case et::float8: { u64 x; std::memcpy(&x, &v.d, 8); o += '\xeb'; be(o, x, 8); break; }
        case et::decimal: {
            auto hi = v.t.coefficient_high(), lo = v.t.coefficient_low();
            bool neg = v.t.sign() < 0;
            if (hi == 0 && (lo <= INT64_MAX || (neg && lo == (1ULL << 63)))) {
                i64 c = neg ? static_cast<i64>(~lo + 1) : static_cast<i64>(lo);
                if (v.t.exponent() == 0) { int_(o, c); break; }
                o += '\xec';
                sv(o, v.t.exponent());
                sv(o, c);
                break;
            }
            // shortest two's complement of at most 17 bytes
            std::string full(1, '\0');
            be(full, hi, 8);
            be(full, lo, 8);
            if (neg) {
                unsigned carry = 1;
                for (int i = 16; i >= 0; --i) {
                    unsigned x = (static_cast<unsigned char>(~full[i]) & 0xffU) + carry;
                    full[i] = static_cast<char>(x);
                    carry = x >> 8;
                }
            }
            char fill = neg ? '\xff' : '\0';
            while (full.size() > 1 && full[0] == fill && ((full[1] & 0x80) != 0) == neg) full.erase(0, 1);
            o += '\xed';
            sv(o, v.t.exponent());
            uv(o, full.size());
            o += full;
            break;
        }
        case et::character: sized(o, v.s.size(), 0x40, 64, 0xf0); o += v.s; break;
        case et::octet: sized(o, v.s.size(), 0xd0, 16, 0xf1); o += v.s; break;
        case et::bit: {
            sized(o, v.u, 0xe0, 8, 0xf2);
            auto t = v.s.substr(0, (v.u + 7) / 8);
            if (v.u % 8) t.back() = static_cast<char>(static_cast<unsigned char>(t.back()) & ((1U << (v.u % 8)) - 1));
            o += t;
            break;
        }
        case et::date: o += '\xf3'; sv(o, v.i); break;
        case et::time_of_day: o += '\xf4'; uv(o, v.u); break;
        case et::time_point: o += '\xf5'; sv(o, v.i); uv(o, v.u); break;
        case et::time_of_day_with_offset: o += '\xee'; uv(o, v.u); sv(o, v.a); break;
        case et::time_point_with_offset: o += '\xef'; sv(o, v.i); uv(o, v.u); sv(o, v.a); break;
        case et::datetime_interval: o += '\xf6'; sv(o, v.a); sv(o, v.b); sv(o, v.c); sv(o, v.i); break;
        case et::row: sized(o, v.u, 0x80, 32, 0xf8); break;
        case et::array: sized(o, v.u, 0xa0, 32, 0xf9); break;
        case et::clob: o += '\xfa'; be(o, v.u, 8); be(o, v.u2, 8); be(o, v.u3, 8); break;
        case et::blob: o += '\xfb'; be(o, v.u, 8); be(o, v.u2, 8); be(o, v.u3, 8); break;
        default: break;
    }
    return o;
}
u64 pow2ish(Src& s) {  // values around every power of two
    auto k = s.draw(64);
    u64 v = k == 64 ? ~0ULL : 1ULL << k;
    return v + static_cast<u64>(s.range(-2, 2));
}
triple any_triple(Src& s) {
    u64 hi = s.chance(60) ? 0 : pow2ish(s), lo = s.chance(70) ? pow2ish(s) : s.draw(1000);
    std::int32_t e = s.chance(40) ? 0 : static_cast<std::int32_t>(s.integer(INT32_MIN, INT32_MAX));
    return triple{s.flip() ? 1 : -1, hi, lo, e};
}
Val value(Src& s) {
    static const std::vector<et> kinds{et::null, et::int_, et::float4, et::float8, et::decimal, et::character, et::octet, et::bit, et::date, et::time_of_day,
        et::time_point, et::time_of_day_with_offset, et::time_point_with_offset, et::datetime_interval, et::row, et::array, et::clob, et::blob, et::end_of_contents};
    Val v;
    v.kind = s.pick(kinds);
    switch (v.kind) {
        case et::int_: v.i = s.chance(50) ? s.range(-20, 70) : static_cast<i64>(pow2ish(s)); break;
        case et::float4: v.f = s.any_float(); break;
        case et::float8: v.d = s.any_double(); break;
        case et::decimal: v.t = any_triple(s); break;
        case et::character: case et::octet: v.s = s.chance(85) ? s.bytes(80) : std::string(s.chance(5) ? s.pick<std::size_t>({16384, 65536}) - 3 + s.draw(6) : s.idx(s.chance(90) ? 2000 : 20000), static_cast<char>(s.draw(255))); break;
        case et::bit: v.u = s.chance(70) ? s.idx(30) : s.idx(2000); v.s = s.bytes(8); v.s.resize((v.u + 7) / 8 + s.idx(2), '\xa5'); break;
        case et::date: v.i = s.any_int<i64>(); break;
        case et::time_of_day_with_offset: v.a = s.any_int<std::int32_t>(); [[fallthrough]];
        case et::time_of_day: v.u = s.chance(50) ? s.draw(86399999999999ULL) : pow2ish(s); break;
        case et::time_point_with_offset: v.a = s.any_int<std::int32_t>(); [[fallthrough]];
        case et::time_point: v.i = s.any_int<i64>(); v.u = s.draw(999999999); break;
        case et::datetime_interval: v.a = s.any_int<std::int32_t>(); v.b = s.any_int<std::int32_t>(); v.c = s.any_int<std::int32_t>(); v.i = s.any_int<i64>(); break;
        case et::row: case et::array: v.u = s.chance(70) ? s.draw(70) : s.draw(0x7fffffffULL); break;
        case et::clob: case et::blob: v.u = pow2ish(s); v.u2 = pow2ish(s); v.u3 = pow2ish(s); break;
        default: break;
    }
    return v;
}
bool put(Val const& v, char*& p, char const* end) {
    switch (v.kind) {
        case et::null: return write_null(p, end);
        case et::end_of_contents: return write_end_of_contents(p, end);
        case et::int_: return write_int(v.i, p, end);
        case et::float4: return write_float4(v.f, p, end);
        case et::float8: return write_float8(v.d, p, end);
        case et::decimal: return write_decimal(v.t, p, end);
        case et::character: return write_character(v.s, p, end);
        case et::octet: return write_octet(v.s, p, end);
        case et::bit: return v.u % 2 ? write_bit(v.s, v.u, p, end) : write_bit(const_bitset_view{v.s.data(), v.u}, p, end);
        case et::date: return write_date(dt::date{v.i}, p, end);
        case et::time_of_day: return write_time_of_day(dt::time_of_day{dt::time_of_day::time_unit{v.u}}, p, end);
        case et::time_of_day_with_offset: return write_time_of_day_with_offset(dt::time_of_day{dt::time_of_day::time_unit{v.u}}, v.a, p, end);
        case et::time_point: return write_time_point(dt::time_point{dt::time_point::offset_type{v.i}, std::chrono::nanoseconds{v.u}}, p, end);
        case et::time_point_with_offset: return write_time_point_with_offset(dt::time_point{dt::time_point::offset_type{v.i}, std::chrono::nanoseconds{v.u}}, v.a, p, end);
        case et::datetime_interval: return write_datetime_interval(dt::datetime_interval{{v.a, v.b, v.c}, dt::time_interval{dt::time_interval::time_unit{v.i}}}, p, end);
        case et::row: return write_row_begin(v.u, p, end);
        case et::array: return write_array_begin(v.u, p, end);
        case et::clob: return write_clob(v.u, v.u2, v.u3, p, end);
        case et::blob: return write_blob(v.u, v.u2, v.u3, p, end);
        default: return false;
    }
}
// reads one entry of the given kind; returns it as a model value
Val get(et kind, char const*& p, char const* end) {
    Val v;
    v.kind = kind;
    switch (kind) {
        case et::null: read_null(p, end); break;
        case et::end_of_contents: read_end_of_contents(p, end); break;
        case et::int_: v.i = read_int(p, end); break;
        case et::float4: v.f = read_float4(p, end); break;
        case et::float8: v.d = read_float8(p, end); break;
        case et::decimal: v.t = read_decimal(p, end); break;
        case et::character: v.s = std::string{read_character(p, end)}; break;
        case et::octet: v.s = std::string{read_octet(p, end)}; break;
        case et::bit: { auto b = read_bit(p, end); v.u = b.size(); v.s.assign(b.block_data(), b.block_size()); break; }
        case et::date: v.i = read_date(p, end).days_since_epoch(); break;
        case et::time_of_day: v.u = read_time_of_day(p, end).time_since_epoch().count(); break;
        case et::time_of_day_with_offset: { auto [a, b] = read_time_of_day_with_offset(p, end); v.u = a.time_since_epoch().count(); v.a = b; break; }
        case et::time_point: { auto a = read_time_point(p, end); v.i = a.seconds_since_epoch().count(); v.u = a.subsecond().count(); break; }
        case et::time_point_with_offset: { auto [a, b] = read_time_point_with_offset(p, end); v.i = a.seconds_since_epoch().count(); v.u = a.subsecond().count(); v.a = b; break; }
        case et::datetime_interval: { auto a = read_datetime_interval(p, end); v.a = a.date().year(); v.b = a.date().month(); v.c = a.date().day(); v.i = a.time().offset().count(); break; }
        case et::row: v.u = read_row_begin(p, end); break;
        case et::array: v.u = read_array_begin(p, end); break;
        case et::clob: { auto [a, b, c] = read_clob(p, end); v.u = a; v.u2 = b; v.u3 = c; break; }
        case et::blob: { auto [a, b, c] = read_blob(p, end); v.u = a; v.u2 = b; v.u3 = c; break; }
        default: break;
    }
    return v;
}
void same(Val const& a, Val const& b) {
    PBT_EQ(static_cast<int>(a.kind), static_cast<int>(b.kind));
    PBT_EQ(a.i, b.i);
    PBT_EQ(a.u, b.u);
    PBT_EQ(a.u2, b.u2);
    PBT_EQ(a.u3, b.u3);
    PBT_EQ(a.a, b.a);
    PBT_EQ(a.b, b.b);
    PBT_EQ(a.c, b.c);
    PBT_CHECK(std::memcmp(&a.f, &b.f, 4) == 0 && std::memcmp(&a.d, &b.d, 8) == 0, "floating point bits differ");
    if (a.kind == et::bit) {
        for (u64 i = 0; i < a.u; ++i) PBT_CHECK(((a.s[i / 8] >> (i % 8)) & 1) == ((b.s[i / 8] >> (i % 8)) & 1), "bit ", i);
    } else {
        PBT_EQ(a.s, b.s);
    }
    PBT_CHECK(a.t == b.t, "decimal got ", a.t, " expected ", b.t);
}
// a heap copy of exactly n bytes, so that the address sanitizer sees any over-read
struct Exact {
    std::unique_ptr<char[]> p;
    std::size_t n;
    explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
    char const* begin() const { return p.get(); }
    char const* end() const { return p.get() + n; }
};
std::string kind_name(et k) { std::ostringstream o; o << k; return o.str(); }
struct Sink {
    std::string out;
    bool write(char const* p, std::uint32_t n) { out.append(p, n); return true; }
};
void send(Val const& v, value_writer<Sink>& w) {
    switch (v.kind) {
        case et::null: w.write_null(); break;
        case et::end_of_contents: w.write_end_of_contents(); break;
        case et::int_: w.write_int(v.i); break;
        case et::float4: w.write_float4(v.f); break;
        case et::float8: w.write_float8(v.d); break;
        case et::decimal: w.write_decimal(v.t); break;
        case et::character: w.write_character(v.s); break;
        case et::octet: w.write_octet(v.s); break;
        case et::bit: if (v.u % 2) w.write_bit(v.s, v.u); else w.write_bit(const_bitset_view{v.s.data(), v.u}); break;
        case et::date: w.write_date(dt::date{v.i}); break;
        case et::time_of_day: w.write_time_of_day(dt::time_of_day{dt::time_of_day::time_unit{v.u}}); break;
        case et::time_of_day_with_offset: w.write_time_of_day_with_offset(dt::time_of_day{dt::time_of_day::time_unit{v.u}}, v.a); break;
        case et::time_point: w.write_time_point(dt::time_point{dt::time_point::offset_type{v.i}, std::chrono::nanoseconds{v.u}}); break;
        case et::time_point_with_offset: w.write_time_point_with_offset(dt::time_point{dt::time_point::offset_type{v.i}, std::chrono::nanoseconds{v.u}}, v.a); break;
        case et::datetime_interval: w.write_datetime_interval(dt::datetime_interval{{v.a, v.b, v.c}, dt::time_interval{dt::time_interval::time_unit{v.i}}}); break;
        case et::row: w.write_row_begin(v.u); break;
        case et::array: w.write_array_begin(v.u); break;
        case et::clob: w.write_clob(v.u, v.u2, v.u3); break;
        case et::blob: w.write_blob(v.u, v.u2, v.u3); break;
        default: break;
    }
}
}  // namespace

PBT_FACET(f_rt, "a sequence of values to bytes and back", "at least three values of different kinds", .quick = 20000) {
    std::vector<Val> vs;
    auto n = 1 + s.size(12);
    for (std::size_t i = 0; i < n; ++i) vs.push_back(value(s));
    Sink sink;
    value_writer<Sink> w{sink};
    std::string expect;
    std::vector<std::size_t> ends;
    std::size_t kinds = 0;
    std::vector<bool> seen(64);
    for (auto const& v : vs) {
        auto before = sink.out.size();
        send(v, w);
        auto ref = reference(v);
        s.note(kind_name(v.kind), " -> ", hex(sink.out.substr(before)));
        PBT_CHECK(sink.out.substr(before) == ref, "kind ", kind_name(v.kind), " got ", hex(sink.out.substr(before)), " expected ", hex(ref));
        expect += ref;
        ends.push_back(expect.size());
        s.label(kind_name(v.kind));
        if (!seen[static_cast<int>(v.kind)]) { seen[static_cast<int>(v.kind)] = true; ++kinds; }
    }
    if (kinds >= 3) s.nontrivial();
    // the same through the plain functions into one buffer of exactly the right size
    std::unique_ptr<char[]> buf{new char[expect.size()]};
    char* p = buf.get();
    for (auto const& v : vs) PBT_CHECK(put(v, p, buf.get() + expect.size()), "refused although there is room: ", kind_name(v.kind));
    PBT_CHECK(p == buf.get() + expect.size() && std::memcmp(buf.get(), expect.data(), expect.size()) == 0, "plain functions and writer differ");
    Exact in{expect};
    auto r = in.begin();
    for (std::size_t i = 0; i < vs.size(); ++i) {
        auto k = peek_type(r, in.end());
        auto want = vs[i].kind;
        if (want == et::decimal && reference(vs[i])[0] != '\xec' && reference(vs[i])[0] != '\xed') want = et::int_;
        PBT_EQ(static_cast<int>(k), static_cast<int>(want));
        auto g = get(vs[i].kind, r, in.end());
        same(g, vs[i]);
        PBT_EQ(static_cast<std::size_t>(r - in.begin()), ends[i], "after ", kind_name(vs[i].kind));
        ++s.ops;
    }
}

PBT_FACET(f_short, "a buffer that is too short", "every case", .quick = 8000) {
    auto v = value(s);
    if (v.s.size() > 200) v.s.resize(200), v.u = std::min<u64>(v.u, 1600);
    auto ref = reference(v);
    s.nontrivial();
    s.label(kind_name(v.kind));
    for (std::size_t n = 0; n <= ref.size(); ++n) {
        std::unique_ptr<char[]> buf{new char[n + 1]};  // exact allocation: overruns are seen by the sanitizer
        std::memset(buf.get(), 0x5c, n + 1);
        char* p = buf.get();
        bool ok = put(v, p, buf.get() + n);
        PBT_EQ(ok, n == ref.size(), "kind ", kind_name(v.kind), " room for ", n, " of ", ref.size(), " bytes");
        if (!ok) {
            PBT_CHECK(p == buf.get(), "position moved although nothing was written, kind ", kind_name(v.kind), " room ", n);
        }
        PBT_CHECK(buf[n] == 0x5c, "wrote past the end");
        // reading a truncated entry is refused
        if (n < ref.size()) {
            Exact in{std::string_view{ref}.substr(0, n)};
            auto r = in.begin();
            bool refused = false;
            try {
                (void) get(v.kind, r, in.end());
            } catch (value_input_exception const&) {
                refused = true;
            }
            PBT_CHECK(refused, "a truncated entry was read: kind ", kind_name(v.kind), " ", n, " of ", ref.size(), " bytes");
        }
        ++s.ops;
    }
}

PBT_FACET(f_wrong, "reading as another kind", "the kinds differ", .quick = 20000) {
    auto v = value(s);
    auto k = value(s).kind;
    auto ref = reference(v);
    Exact in{ref};
    auto actual = peek_type(in.begin(), in.end());
    auto r = in.begin();
    bool fits = k == actual || (k == et::decimal && actual == et::int_);
    if (!fits) s.nontrivial();
    bool refused = false;
    try {
        (void) get(k, r, in.end());
    } catch (std::runtime_error const&) {
        refused = true;
    }
    PBT_EQ(refused, !fits, "entry ", kind_name(actual), " read as ", kind_name(k));
    if (refused) PBT_CHECK(r == in.begin(), "position moved although the read was refused");
    ++s.ops;
}

PBT_FACET(f_junk, "arbitrary bytes are read or refused, never misread", "a value is read, or several bytes are refused", .quick = 60000) {
    std::string bytes;
    if (s.chance(60)) {
        bytes = reference(value(s));
        if (bytes.size() > 100) bytes.resize(100);
        for (auto n = s.idx(4); n-- > 0 && !bytes.empty();) bytes[s.idx(bytes.size())] = static_cast<char>(s.draw(255));
    } else {
        bytes = s.bytes(30);
        if (!bytes.empty() && s.flip()) bytes[0] = static_cast<char>(0xe8 + s.draw(23));
    }
    Exact in{bytes};
    auto r = in.begin();
    std::size_t got = 0;
    for (int i = 0; i < 40; ++i) {
        auto before = r;
        try {
            auto k = peek_type(r, in.end());
            if (k == et::int_ && s.flip()) k = et::decimal;
            auto v = get(k, r, in.end());
            PBT_CHECK(r > before && r <= in.end(), "position out of bounds");
            if (k == et::time_point || k == et::time_point_with_offset) v.u = v.u % 1000000000;
            // whatever was accepted can be written and read back
            auto again = reference(v);
            char* q;
            std::unique_ptr<char[]> buf{new char[again.size() + 1]};
            q = buf.get();
            PBT_CHECK(put(v, q, buf.get() + again.size()) && static_cast<std::size_t>(q - buf.get()) == again.size(), "accepted value cannot be written");
            PBT_CHECK(std::memcmp(buf.get(), again.data(), again.size()) == 0, "accepted value is written differently");
            ++got;
            ++s.ops;
        } catch (Fail const&) {
            throw;
        } catch (std::exception const&) {
            PBT_CHECK(r >= before && r <= in.end(), "position out of bounds after a refusal");
            break;
        }
    }
    if (got > 0 || bytes.size() > 4) s.nontrivial();
    s.label(got ? "accepted" : "refused");
}

PBT_FACET(f_b128, "variable length integers", "needs at least two bytes", .quick = 40000) {
    u64 v = s.chance(50) ? pow2ish(s) : s.draw(~0ULL);
    auto sg = static_cast<i64>(v);
    std::string u, g;
    uv(u, v);
    sv(g, sg);
    if (u.size() > 1) s.nontrivial();
    PBT_EQ(base128v::size_unsigned(v), u.size(), "size of ", v);
    PBT_EQ(base128v::size_signed(sg), g.size(), "size of ", sg);
    for (int side = 0; side < 2; ++side) {
        auto const& ref = side ? g : u;
        for (std::size_t n = 0; n <= ref.size(); ++n) {
            std::unique_ptr<char[]> buf{new char[n + 1]};
            char* p = buf.get();
            bool ok = side ? base128v::write_signed(sg, p, buf.get() + n) : base128v::write_unsigned(v, p, buf.get() + n);
            PBT_EQ(ok, n == ref.size(), "room ", n, " of ", ref.size());
            PBT_CHECK(p == (ok ? buf.get() + n : buf.get()), "position after writing");
            if (ok) PBT_EQ(std::string(buf.get(), n), ref);
            Exact in{std::string_view{ref}.substr(0, n)};
            auto r = in.begin();
            bool got;
            if (side) {
                auto x = base128v::read_signed(r, in.end());
                got = x.has_value();
                if (got) PBT_EQ(*x, sg);
            } else {
                auto x = base128v::read_unsigned(r, in.end());
                got = x.has_value();
                if (got) PBT_EQ(*x, v);
            }
            PBT_EQ(got, n == ref.size(), "read of ", n, " of ", ref.size(), " bytes");
            PBT_CHECK(r == (got ? in.end() : in.begin()), "position after reading");
            ++s.ops;
        }
    }
    // only the shortest form is accepted
    if (u.size() < 8) {
        auto longer = u;
        longer.back() = static_cast<char>(longer.back() | 0x80);
        longer += '\0';
        Exact in{longer};
        auto r = in.begin();
        PBT_CHECK(!base128v::read_unsigned(r, in.end()).has_value(), "a padded form was accepted: ", hex(longer));
    }
}
