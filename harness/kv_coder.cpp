// P14: key and value encoding of rows. Oracle: an independent encoder of the documented storage format, round trip,
// byte order against SQL order, refusal of what does not fit and of damaged data.
#include <memory>
#include <jogasaki/configuration.h>
#include <jogasaki/data/aligned_buffer.h>
#include <jogasaki/data/any.h>
#include <jogasaki/executor/expr/details/decimal_context.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/kvs/coder.h>
#include <jogasaki/kvs/readable_stream.h>
#include <jogasaki/kvs/writable_stream.h>
#include <jogasaki/utils/coder.h>
#include "rec.h"
#include "kvref.h"
using namespace rec;
using namespace jogasaki;
using kvs::coding_context;
using kvs::coding_spec;
using kvs::readable_stream;
using kvs::writable_stream;

namespace jogasaki::global {
using takatori::util::maybe_shared_ptr;
maybe_shared_ptr<configuration> const& config_pool(maybe_shared_ptr<configuration> arg) {
    static maybe_shared_ptr<configuration> pool = std::make_shared<configuration>();
    if (arg) pool = std::move(arg);
    return pool;
}
}  // namespace jogasaki::global

namespace {
struct Col {
    Ty t;
    coding_spec spec;
    bool nullable;
    [[nodiscard]] bool asc() const { return spec.ordering() == kvs::order::ascending; }
};
struct Codec {
    std::size_t offset = 0, nullity = 0;
};

std::string reference(Col const& c, V const& v, bool write) { return rec::reference(c.t, c.nullable, c.asc(), v, write); }
V stored(Col const& c, V const& v) { return rec::stored(c.t, v); }
data::any to_any(V const& v, Res* r) {
    using data::any;
    if (v.null) return {};
    switch (v.k) {
        case K::boolean: return any{std::in_place_type<std::int8_t>, static_cast<std::int8_t>(v.i)};
        case K::int1:
        case K::int2:
        case K::int4: return any{std::in_place_type<std::int32_t>, static_cast<std::int32_t>(v.i)};
        case K::int8: return any{std::in_place_type<std::int64_t>, v.i};
        case K::float4: return any{std::in_place_type<float>, v.f};
        case K::float8: return any{std::in_place_type<double>, v.d};
        case K::decimal: return any{std::in_place_type<triple>, v.t};
        case K::character: return any{std::in_place_type<text>, text{r, v.s}};
        case K::octet: return any{std::in_place_type<binary>, binary{r, v.s}};
        case K::date: return any{std::in_place_type<dt::date>, dt::date{v.i}};
        case K::time_of_day: return any{std::in_place_type<dt::time_of_day>, dt::time_of_day{std::chrono::nanoseconds{v.i}}};
        case K::time_point: return any{std::in_place_type<dt::time_point>, dt::time_point{dt::time_point::offset_type{v.i}, std::chrono::nanoseconds{v.n}}};
        case K::blob: return any{std::in_place_type<lob::blob_reference>, lob::blob_reference{static_cast<u64>(v.i), jogasaki::lob::lob_data_provider::datastore}};
        case K::clob: return any{std::in_place_type<lob::clob_reference>, lob::clob_reference{static_cast<u64>(v.i), jogasaki::lob::lob_data_provider::datastore}};
        default: std::abort();
    }
}
V from_any(data::any const& a, K k) {
    V v;
    v.k = k;
    if (a.empty()) { v.null = true; return v; }
    switch (k) {
        case K::boolean: v.i = a.to<std::int8_t>(); break;
        case K::int1:
        case K::int2:
        case K::int4: v.i = a.to<std::int32_t>(); break;
        case K::int8: v.i = a.to<std::int64_t>(); break;
        case K::float4: v.f = a.to<float>(); break;
        case K::float8: v.d = a.to<double>(); break;
        case K::decimal: v.t = a.to<triple>(); break;
        case K::character: v.s = static_cast<std::string>(a.to<text>()); break;
        case K::octet: v.s = static_cast<std::string>(a.to<binary>()); break;
        case K::date: v.i = a.to<dt::date>().days_since_epoch(); break;
        case K::time_of_day: v.i = static_cast<i64>(a.to<dt::time_of_day>().time_since_epoch().count()); break;
        case K::time_point: v.i = a.to<dt::time_point>().seconds_since_epoch().count(); v.n = static_cast<std::int32_t>(a.to<dt::time_point>().subsecond().count()); break;
        case K::blob: v.i = static_cast<i64>(a.to<lob::blob_reference>().object_id()); break;
        case K::clob: v.i = static_cast<i64>(a.to<lob::clob_reference>().object_id()); break;
        default: std::abort();
    }
    return v;
}
std::vector<Col> gen_cols(Src& s, bool key, std::size_t most = 5) {
    std::vector<Col> r;
    auto n = s.range(1, most);
    for (u64 i = 0; i < n; ++i) {
        auto t = gen_type(s, !key, key);
        r.push_back(Col{t, key ? (s.flip() ? kvs::spec_key_ascending : kvs::spec_key_descending) : kvs::spec_value, s.chance(60)});
    }
    return r;
}
std::shared_ptr<meta::record_meta> layout(std::vector<Col> const& cs) {
    std::vector<Ty> t;
    std::vector<bool> n;
    for (auto&& c : cs) { t.push_back(c.t); n.push_back(c.nullable); }
    return make_meta(t, n);
}
std::vector<V> gen_row(Src& s, std::vector<Col> const& cs, int small = 40) {
    std::vector<V> r;
    for (auto&& c : cs) {
        auto v = gen_value(s, c.t, small);
        if (c.nullable && s.chance(25)) v.null = true;
        r.push_back(v);
    }
    return r;
}
std::string describe(std::vector<Col> const& cs, std::vector<V> const& vs) {
    std::string r;
    for (std::size_t i = 0; i < cs.size(); ++i) {
        r += cat(i ? ", " : "", cs[i].t.ft(), cs[i].nullable ? "?" : "", cs[i].spec.is_key() ? (cs[i].asc() ? " asc" : " desc") : "", " = ", vs[i]);
    }
    return r;
}
status enc(Row const& row, std::size_t i, Col const& c, coding_context& ctx, writable_stream& w) {
    auto& m = *row.meta;
    return c.nullable ? kvs::encode_nullable(row.ref(), m.value_offset(i), m.nullity_offset(i), m.at(i), c.spec, ctx, w)
                      : kvs::encode(row.ref(), m.value_offset(i), m.at(i), c.spec, ctx, w);
}
status enc(data::any const& a, Col const& c, coding_context& ctx, writable_stream& w) {
    auto ft = c.t.ft();
    return c.nullable ? kvs::encode_nullable(a, ft, c.spec, ctx, w) : kvs::encode(a, ft, c.spec, ctx, w);
}
status dec(readable_stream& r, Row& row, std::size_t i, Col const& c, coding_context& ctx) {
    auto& m = *row.meta;
    return c.nullable ? kvs::decode_nullable(r, m.at(i), c.spec, ctx, row.ref(), m.value_offset(i), m.nullity_offset(i), row.res.get())
                      : kvs::decode(r, m.at(i), c.spec, ctx, row.ref(), m.value_offset(i), row.res.get());
}
status dec(readable_stream& r, data::any& a, Col const& c, coding_context& ctx, Res* res) {
    auto ft = c.t.ft();
    return c.nullable ? kvs::decode_nullable(r, ft, c.spec, ctx, a, res) : kvs::decode(r, ft, c.spec, ctx, a, res);
}
status eat(readable_stream& r, Col const& c, coding_context& ctx) {
    auto ft = c.t.ft();
    return c.nullable ? kvs::consume_stream_nullable(r, ft, c.spec, ctx) : kvs::consume_stream(r, ft, c.spec, ctx);
}
std::string encode_row(Row const& row, std::vector<Col> const& cs, coding_context& ctx) {
    std::unique_ptr<char[]> buf{new char[1 << 16]};
    writable_stream w{buf.get(), 1 << 16};
    for (std::size_t i = 0; i < cs.size(); ++i) PBT_EQ(enc(row, i, cs[i], ctx, w), status::ok, "column ", i);
    return {w.data(), w.size()};
}
struct Exact {
    std::unique_ptr<char[]> p;
    std::size_t n;
    explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
};
Row fill(std::vector<Col> const& cs, std::vector<V> const& vs) {
    Row r{layout(cs)};
    for (std::size_t i = 0; i < cs.size(); ++i) r.set(i, vs[i]);
    return r;
}
coding_context context(bool write) {
    coding_context c;
    c.coding_for_write(write);
    return c;
}
}  // namespace

PBT_FACET(f_rt, "a row is encoded as documented and decoded unchanged", "at least two columns", .quick = 8000) {
    bool key = s.flip();
    auto cs = gen_cols(s, key);
    auto vs = gen_row(s, cs);
    s.note(describe(cs, vs));
    if (cs.size() > 1) s.nontrivial();
    auto row = fill(cs, vs);
    auto ctx = context(true);
    std::string ref;
    std::vector<std::size_t> ends;
    for (std::size_t i = 0; i < cs.size(); ++i) {
        ref += reference(cs[i], vs[i], true);
        ends.push_back(ref.size());
        s.label(cat(cs[i].t.ft().kind()).c_str());
    }
    auto got = encode_row(row, cs, ctx);
    PBT_EQ(hex(got), hex(ref), "encoded row");
    // the same values passed one by one
    {
        std::unique_ptr<char[]> buf{new char[ref.size()]};
        writable_stream w{buf.get(), ref.size()};
        Res res;
        for (std::size_t i = 0; i < cs.size(); ++i) {
            PBT_EQ(enc(to_any(vs[i], &res), cs[i], ctx, w), status::ok);
            PBT_EQ(w.size(), ends[i], "bytes after column ", i);
        }
        PBT_EQ(hex(std::string_view{w.data(), w.size()}), hex(ref), "encoded values");
    }
    Exact in{ref};
    Row out{layout(cs)};
    readable_stream r{in.p.get(), in.n}, r2{in.p.get(), in.n}, r3{in.p.get(), in.n};
    Res res;
    for (std::size_t i = 0; i < cs.size(); ++i) {
        auto want = stored(cs[i], vs[i]);
        PBT_EQ(dec(r, out, i, cs[i], ctx), status::ok, "decode column ", i);
        PBT_CHECK(same(out.at(i), want), "column ", i, " is ", out.at(i), " instead of ", want);
        data::any a;
        PBT_EQ(dec(r2, a, cs[i], ctx, &res), status::ok);
        PBT_CHECK(same(from_any(a, cs[i].t.k), want), "value of column ", i, " is ", from_any(a, cs[i].t.k), " instead of ", want);
        PBT_EQ(eat(r3, cs[i], ctx), status::ok);
        for (auto* x : {&r, &r2, &r3}) PBT_EQ(x->size(), ends[i], "position after column ", i);
        PBT_EQ(r.rest().size(), in.n - ends[i]);
    }
    // all columns again, now that later ones were written
    for (std::size_t i = 0; i < cs.size(); ++i) PBT_CHECK(same(out.at(i), stored(cs[i], vs[i])), "column ", i, " changed");
    // encoding what was decoded gives the same bytes (references to large objects have to be registered first)
    for (auto&& c : cs) if (c.t.k == K::blob || c.t.k == K::clob) return;
    PBT_EQ(hex(encode_row(out, cs, ctx)), hex(ref), "encoded again");
}

PBT_FACET(f_order, "byte order of keys is the order of their values", "the first difference is not in the first column", .quick = 40000) {
    auto cs = gen_cols(s, true, 4);
    auto a = gen_row(s, cs, 70);
    std::vector<V> b;
    auto first = s.range(0, cs.size());
    for (std::size_t i = 0; i < cs.size(); ++i) {
        auto v = a[i];
        if (i >= first || s.chance(10)) {
            v = gen_value(s, cs[i].t, 70);
            v.null = cs[i].nullable && s.chance(25);
            if (!v.null && !a[i].null && (v.k == K::character || v.k == K::octet) && s.flip()) {
                // one string continues the other
                v.s = (a[i].s + v.s).substr(0, max_len(cs[i].t));
            }
        }
        b.push_back(v);
    }
    s.note("a: " + describe(cs, a));
    s.note("b: " + describe(cs, b));
    int want = 0;
    std::size_t at = 0;
    for (; at < cs.size() && want == 0; ++at) {
        auto x = stored(cs[at], a[at]), y = stored(cs[at], b[at]);
        int c = x.null || y.null ? static_cast<int>(y.null) - static_cast<int>(x.null) : cmp3(x, y);
        want = cs[at].asc() ? c : -c;
    }
    if (want && at > 1) s.nontrivial();
    auto ctx = context(true);
    auto ka = encode_row(fill(cs, a), cs, ctx), kb = encode_row(fill(cs, b), cs, ctx);
    PBT_EQ(sgn(ka.compare(kb)), want, hex(ka), " and ", hex(kb));
    s.label(want == 0 ? "equal" : want < 0 ? "less" : "greater");
}

PBT_FACET(f_fit, "a value that the column cannot hold is refused, and nothing else is", "refused", .quick = 30000) {
    bool key = s.flip();
    auto c = gen_cols(s, key, 1)[0];
    auto k = s.idx(4);
    c.t.k = k == 0 ? K::decimal : k == 1 ? K::octet : K::character;
    if (c.t.k == K::decimal) { c.t.prec = s.range(1, 38); c.t.scale = s.range(0, *c.t.prec); }
    else c.t.len = s.pick({1, 2, 3, 5, 14, 15, 16, 17, 40});
    bool write = s.chance(70);
    V v;
    v.k = c.t.k;
    auto want = status::ok;
    if (c.t.k == K::decimal) {
        auto digits = s.range(1, 38);
        auto m = p10(digits);
        auto x = s.chance(20) ? m - 1 : s.chance(25) ? m / 10 : (static_cast<unsigned __int128>(s.draw(~0ULL)) << 64 | s.draw(~0ULL)) % m;
        auto e = static_cast<int>(s.range(0, 45)) - 5;
        v.t = from_int(s.flip(), x, e);
        auto y = x;
        bool exact = true, big = false;
        for (auto i = e; i > static_cast<int>(*c.t.scale); --i) { exact = exact && y % 10 == 0; y /= 10; }
        for (auto i = e; i < static_cast<int>(*c.t.scale); ++i) { big = big || y >= p10(37); y = big ? y : y * 10; }
        if (!exact || (x != 0 && (big || y >= p10(*c.t.prec)))) want = status::err_expression_evaluation_failure;
    } else {
        auto n = s.range(0, 2) + *c.t.len - s.range(0, std::min<std::size_t>(*c.t.len, 2));
        v.s = std::string(n, 'x');
        if (n && s.chance(40)) v.s[s.idx(n)] = s.flip() ? '\0' : '\xff';
        if (c.t.k == K::character && v.s.find('\0') != std::string::npos) want = status::err_invalid_runtime_value;
        if (write && n > *c.t.len) want = status::err_insufficient_field_storage;
    }
    s.note(cat(describe({c}, {v}), write ? " for write" : " for read"));
    if (want != status::ok) s.nontrivial();
    auto ctx = context(write);
    Row row{layout({c})};
    row.set(0, v);
    std::unique_ptr<char[]> buf{new char[256]};
    writable_stream w{buf.get(), 256};
    PBT_EQ(enc(row, 0, c, ctx, w), want, describe({c}, {v}));
    writable_stream w2{buf.get(), 256};
    Res res;
    PBT_EQ(enc(to_any(v, &res), c, ctx, w2), want, "as a single value");
    if (want == status::ok) PBT_EQ(hex(std::string_view{w2.data(), w2.size()}), hex(reference(c, v, write)));
    s.label(want == status::ok ? "accepted" : "refused");
}

PBT_FACET(f_null, "a missing value where none is allowed is refused", "always", .quick = 2000) {
    auto c = gen_cols(s, s.flip(), 1)[0];
    c.nullable = false;
    auto ctx = context(true);
    char buf[8];
    writable_stream w{buf, 8};
    s.nontrivial();
    PBT_EQ(enc(data::any{}, c, ctx, w), status::err_data_corruption);
}

PBT_FACET(f_room, "a buffer that is too small is never overrun", "too small", .quick = 12000) {
    auto cs = gen_cols(s, s.flip(), 4);
    auto vs = gen_row(s, cs);
    s.note(describe(cs, vs));
    auto row = fill(cs, vs);
    auto ctx = context(true);
    std::string ref;
    for (std::size_t i = 0; i < cs.size(); ++i) ref += reference(cs[i], vs[i], true);
    auto room = s.chance(20) ? ref.size() : s.range(0, ref.size());
    if (room < ref.size()) s.nontrivial();
    // counting pass
    std::unique_ptr<char[]> buf{new char[room]};
    writable_stream w{buf.get(), room, true};
    for (std::size_t i = 0; i < cs.size(); ++i) PBT_EQ(enc(row, i, cs[i], ctx, w), status::ok);
    PBT_EQ(w.size(), ref.size(), "needed bytes");
    // strict pass
    writable_stream x{buf.get(), room};
    bool threw = false;
    for (std::size_t i = 0; i < cs.size() && !threw; ++i) {
        try {
            PBT_EQ(enc(row, i, cs[i], ctx, x), status::ok);
        } catch (Fail const&) {
            throw;
        } catch (std::logic_error const&) {
            threw = true;
        }
    }
    PBT_EQ(threw, room < ref.size(), "refusal with room for ", room, " of ", ref.size());
    PBT_CHECK(x.size() <= room, "wrote ", x.size(), " into ", room);
    if (!threw) PBT_EQ(hex(std::string_view{x.data(), x.size()}), hex(ref));
    // one column repeated into a growing buffer
    auto c = cs[0];
    Res res;
    auto a0 = to_any(vs[0], &res), a1 = to_any(stored(c, vs[0]), &res);
    data::aligned_buffer target{s.range(0, 3) * 16};
    PBT_EQ(utils::encode_any(target, c.t.ft(), c.nullable, c.spec, ctx, {a0, a1}), status::ok);
    PBT_EQ(hex(static_cast<std::string_view>(target)), hex(reference(c, vs[0], true) + reference(c, stored(c, vs[0]), true)), "values in a growing buffer");
}

PBT_FACET(f_damage, "damaged or cut data is reported, never overread", "cut or changed inside", .quick = 20000) {
    auto cs = gen_cols(s, s.flip(), 4);
    auto vs = gen_row(s, cs);
    std::string bytes;
    std::vector<std::size_t> ends;
    for (std::size_t i = 0; i < cs.size(); ++i) {
        bytes += reference(cs[i], vs[i], true);
        ends.push_back(bytes.size());
    }
    auto mode = s.idx(3);
    bool cut = mode == 0 && !bytes.empty();
    if (cut) bytes.resize(s.range(0, bytes.size() - 1));
    if (mode == 1) for (auto n = s.range(1, 3); n > 0 && !bytes.empty(); --n) bytes[s.idx(bytes.size())] = s.flip() ? static_cast<char>(s.range(0, 255)) : s.pick({'\0', '\xff', '\x80', '\x7f'});
    if (mode == 2) bytes = s.bytes(40);
    s.note(cat(describe(cs, vs), " from ", hex(bytes)));
    if (!bytes.empty()) s.nontrivial();
    auto ctx = context(false);
    Exact in{bytes};
    Row out{layout(cs)};
    readable_stream r{in.p.get(), in.n}, r2{in.p.get(), in.n}, r3{in.p.get(), in.n};
    Res res;
    for (std::size_t i = 0; i < cs.size(); ++i) {
        auto st = dec(r, out, i, cs[i], ctx);
        data::any a;
        auto st2 = dec(r2, a, cs[i], ctx, &res);
        auto st3 = eat(r3, cs[i], ctx);
        PBT_CHECK(st == status::ok || st == status::err_data_corruption, "status ", st);
        PBT_EQ(st2, st, "value and record decoding of column ", i);
        PBT_EQ(st3, st, "skipping and decoding of column ", i);
        if (cut) PBT_EQ(st, ends[i] <= bytes.size() ? status::ok : status::err_data_corruption, "column ", i, " ends at ", ends[i], " of ", bytes.size());
        if (st != status::ok) { s.label("reported"); return; }
        PBT_CHECK(r.size() <= in.n, "position ", r.size(), " of ", in.n);
        PBT_EQ(r2.size(), r.size());
        PBT_EQ(r3.size(), r.size());
        PBT_CHECK(same(from_any(a, cs[i].t.k), out.at(i)), "value and record decoding differ");
    }
    s.label("decoded");
}
