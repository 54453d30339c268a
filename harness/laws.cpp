// P10: the arithmetic and collection laws the engine's bookkeeping relies on.
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <set>
#include <sstream>
#include <string>
#include <variant>
#include <vector>
#include <jogasaki/constants.h>
#include <jogasaki/executor/diagnostic_record.h>
#include <jogasaki/executor/process/impl/region_id.h>
#include <jogasaki/logging_helper.h>
#include <jogasaki/utils/aligned_unique_ptr.h>
#include <jogasaki/utils/base_filename.h>
#include <jogasaki/utils/fail.h>
#include <jogasaki/utils/hash_combine.h>
#include <jogasaki/utils/map_schema_name.h>
#include <jogasaki/utils/random.h>
#include <jogasaki/utils/round.h>
#include <jogasaki/utils/split_mix64.h>
#include <jogasaki/utils/subtract_vectors.h>
#include <jogasaki/utils/surrogate_id_utils.h>
#include <jogasaki/utils/to_string.h>
#include <jogasaki/utils/variant.h>
#include "pbt.h"
using namespace pbt;
namespace ju = jogasaki::utils;

static u64 any_size(Src& s) {
    switch (s.draw(4)) {
        case 0: return s.draw(70);
        case 1: {  // around a power of two
            u64 p = u64{1} << s.draw(63);
            return p + s.draw(4) - 2;
        }
        case 2: return s.any_u64();
        case 3: return u64{0} - 1 - s.draw(5);
        default: {
            u64 v = 0;
            for (std::size_t i = 0, n = s.idx(6); i < n; ++i) v |= u64{1} << s.draw(63);
            return v;
        }
    }
}

PBT_FACET(pow2, "power-of-two rounding", "the value is not a power of two", .quick = 200000) {
    u64 v = any_size(s);
    s.note("value ", v);
    int bits = 0, top = -1;
    for (int i = 0; i < 64; ++i)
        if ((v >> i) & 1) { ++bits; top = i; }
    if (bits > 1) s.nontrivial();
    s.label(bits == 0 ? "zero" : bits == 1 ? "power of two" : top == 63 ? "above 2^63" : "other");
    PBT_EQ(ju::is_power_of_two(v), bits == 1, "value ", v);
    u64 down = v == 0 ? 0 : u64{1} << top;
    PBT_EQ(ju::round_down_to_power_of_two(v), down, "value ", v);
    s.ops += 2;
    if (v == 0) {
        PBT_EQ(ju::round_up_to_power_of_two(v), 0u);
    } else if (bits == 1) {
        PBT_EQ(ju::round_up_to_power_of_two(v), v);
    } else if (top < 63) {  // otherwise the result does not fit
        PBT_EQ(ju::round_up_to_power_of_two(v), u64{1} << (top + 1), "value ", v);
        ++s.ops;
    }
}

template <class T>
static void subtract_case(Src& s, std::function<T()> gen) {
    std::vector<T> x, y;
    std::size_t n = s.size(24), m = s.size(24);
    for (std::size_t i = 0; i < n; ++i) x.push_back(gen());
    for (std::size_t i = 0; i < m; ++i) y.push_back(s.flip() && n ? x[s.idx(n)] : gen());
    auto got = ju::subtract_vectors(x, y);
    std::multiset<T> left(x.begin(), x.end());
    for (auto&& e : y) {
        auto it = left.find(e);
        if (it != left.end()) left.erase(it);
    }
    std::vector<T> want(left.begin(), left.end());
    PBT_CHECK(got == want, "difference of ", n, " and ", m, " elements has ", got.size(), " elements, expected ", want.size());
    s.ops += 1;
    if (n && m && want.size() < n) s.nontrivial();
    auto again = ju::subtract_vectors(got, std::vector<T>{});
    PBT_CHECK(again == got, "subtracting nothing changed the result");
    auto none = ju::subtract_vectors(x, x);
    PBT_CHECK(none.empty(), "x minus x left ", none.size(), " elements");
}

PBT_FACET(subtract, "difference of two lists", "something is removed", .quick = 40000) {
    if (s.flip()) {
        u64 hi = s.pick<u64>({1, 3, 10, 1000});
        subtract_case<std::int64_t>(s, [&] { return s.range(-static_cast<i64>(hi), static_cast<i64>(hi)); });
    } else {
        subtract_case<std::string>(s, [&] { return s.chars("ab", 3); });
    }
}

static u64 unxorshr(u64 x, int k) {
    u64 r = x;
    for (int i = 0; i < 64; i += k) r = x ^ (r >> k);
    return r;
}
static u64 unxorshl(u64 x, int k, int width) {
    u64 mask = width == 64 ? ~u64{0} : (u64{1} << width) - 1, r = x;
    for (int i = 0; i < width; i += k) r = (x ^ (r << k)) & mask;
    return r;
}
static u64 inv64(u64 a) {
    u64 x = a;
    for (int i = 0; i < 6; ++i) x *= 2 - a * x;
    return x;
}

PBT_FACET(mixing, "mixing functions lose nothing", "input is not 0", .quick = 100000) {
    u64 v = any_size(s), h = any_size(s), w = any_size(s);
    if (v && h) s.nontrivial();
    // split_mix64 is a bijection: undo every step of the published finalizer
    u64 z = ju::split_mix64(v);
    u64 b = unxorshr(z, 31);
    b *= inv64(0x94d049bb133111ebULL);
    b = unxorshr(b, 27);
    b *= inv64(0xbf58476d1ce4e5b9ULL);
    b = unxorshr(b, 30);
    b -= 0x9e3779b97f4a7c15ULL;
    PBT_EQ(b, v, "undoing the mixing of ", v);
    if (v != w) PBT_CHECK(z != ju::split_mix64(w), "collision of ", v, " and ", w);
    // combining keeps two different second values apart for the same first value
    u64 c = ju::hash_combine(h, v);
    PBT_EQ(ju::hash_combine(h, v), c);
    if (v != w) PBT_CHECK(c != ju::hash_combine(h, w), "combine(", h, ",", v, ") equals combine(", h, ",", w, ")");
    PBT_EQ((c ^ h) - ((h << 6) + (h >> 2)), v + 0x9e3779b9u, "first ", h, " second ", v);
    s.ops += 3;
}

PBT_FACET(generators, "pseudo random generators", "more than 5 numbers drawn", .quick = 20000) {
    std::size_t n = s.size(60) + 1;
    if (n > 5) s.nontrivial();
    {
        auto seed = static_cast<std::uint32_t>(any_size(s));
        if (seed == 0) {
            PBT_CHECK((throws<std::exception>([&] { ju::xorshift_random32 r{0}; (void)r; })), "a zero seed was accepted");
            ju::xorshift_random32 r{};
            PBT_CHECK((throws<std::exception>([&] { r.seed(0); })), "a zero seed was accepted");
        } else {
            ju::xorshift_random32 a{seed}, b{};
            b.seed(seed);
            u64 st = seed;
            for (std::size_t i = 0; i < n; ++i) {
                auto x = a();
                PBT_EQ(x, b(), "the same seed gave another number at ", i);
                PBT_CHECK(x != 0, "stuck at zero");
                u64 p = unxorshl(x, 5, 32);
                p = unxorshr(p, 17);
                p = unxorshl(p, 13, 32);
                PBT_EQ(p, st, "step ", i, " is not reversible: numbers would repeat early");
                st = x;
                ++s.ops;
            }
        }
    }
    {
        u64 seed = any_size(s);
        if (seed == 0) {
            PBT_CHECK((throws<std::exception>([&] { ju::xorshift_random64 r{0}; (void)r; })), "a zero seed was accepted");
            ju::xorshift_random64 r{};
            PBT_CHECK((throws<std::exception>([&] { r.seed(0); })), "a zero seed was accepted");
        } else {
            ju::xorshift_random64 a{seed}, b{};
            b.seed(seed);
            u64 st = seed;
            for (std::size_t i = 0; i < n; ++i) {
                auto x = a();
                PBT_EQ(x, b(), "the same seed gave another number at ", i);
                PBT_CHECK(x != 0, "stuck at zero");
                u64 p = unxorshl(x, 17, 64);
                p = unxorshr(p, 7);
                p = unxorshl(p, 13, 64);
                PBT_EQ(p, st, "step ", i, " is not reversible: numbers would repeat early");
                st = x;
                ++s.ops;
            }
        }
    }
}

PBT_FACET(aligned, "aligned arrays", "size is not a multiple of the alignment", .quick = 30000) {
    std::size_t al = std::size_t{1} << s.range(4, 12);
    std::size_t sz = s.pick({s.size(5000), static_cast<std::size_t>(s.draw(64)), al - 1, al, al + 1, al * 2 + s.idx(3)});
    if (sz % al) s.nontrivial();
    auto p = ju::make_aligned_array<char>(al, sz);
    PBT_CHECK(p != nullptr, "no memory for ", sz, " aligned ", al);
    PBT_EQ(reinterpret_cast<std::uintptr_t>(p.get()) % al, 0u, "alignment ", al, " size ", sz);
    std::memset(p.get(), 0x5a, sz);  // ASan checks that the whole size is usable
    ++s.ops;
}

PBT_FACET(base, "file name of a path", "the path has a directory", .quick = 30000) {
    std::string p = s.chars("/ab.", 14);
    auto pos = ju::basename_start(p.c_str());
    std::string want = p.rfind('/') == std::string::npos ? p : p.substr(p.rfind('/') + 1);
    if (p != want) s.nontrivial();
    PBT_EQ(p.substr(pos), want, "path ", p);
    ++s.ops;
}

PBT_FACET(schema, "schema name mapping", "the name is close to the public schema", .quick = 20000) {
    std::string n = s.pick({std::string("public"), std::string("Public"), std::string("public "), std::string("publi"), std::string(""), s.utf8(8),
                            std::string("public\0", 7)});
    if (n.size() > 3) s.nontrivial();
    auto r = ju::map_schema_name_to_storage_namespace(n);
    PBT_EQ(std::string(r), n == "public" ? std::string() : n);
    ++s.ops;
}

PBT_FACET(surrogate, "storage identifiers as bytes", "identifier above 255", .quick = 40000) {
    u64 a = any_size(s), b = any_size(s);
    if (a > 255) s.nontrivial();
    auto x = ju::to_big_endian(a), y = ju::to_big_endian(b);
    PBT_EQ(x.size(), 8u);
    PBT_EQ(ju::from_big_endian(x), a);
    PBT_CHECK((x < y) == (a < b) && (x == y) == (a == b), "byte order of ", a, " and ", b, " differs from their order");
    PBT_EQ(ju::is_surrogate_id(x), (a >> 56) == 0, "id ", a);
    std::string k = s.flip() ? s.bytes(12) : std::string(s.idx(12), '\0');
    PBT_EQ(ju::is_surrogate_id(k), k.size() == 8 && k[0] == 0);
    if (k.size() != 8) PBT_CHECK((throws<std::exception>([&] { (void)ju::from_big_endian(k); })), "size ", k.size(), " was accepted");
    s.ops += 4;
}

PBT_FACET(text, "numbers as text", "non-zero", .quick = 20000) {
    i64 v = s.any_int<i64>();
    if (v) s.nontrivial();
    PBT_EQ(ju::to_string(v), std::to_string(v));
    PBT_EQ(ju::to_string(std::string_view{"aé"}), "aé");
    std::ostringstream o;
    o << std::uppercase;
    double d = s.any_double();
    o << d;
    PBT_EQ(ju::to_string(d), o.str());
    s.ops += 3;
    using V = std::variant<std::monostate, int, std::string, double>;
    static_assert(jogasaki::alternative_index<int, V>() == 1 && jogasaki::alternative_index<double, V>() == 3 &&
                  jogasaki::alternative_index<char, V>() == static_cast<std::size_t>(-1));
}

// ---- log location prefix -----------------------------------------------------------------
static std::string ident(Src& s) { return s.chars("abf", 3) + s.pick({std::string("f"), std::string("op"), std::string("x1"), std::string("_")}); }
static std::string targ(Src& s, int depth) {
    std::string r = ident(s);
    if (s.chance(30)) r += "::" + ident(s);
    if (depth > 0 && s.chance(30)) r += "<" + targ(s, depth - 1) + ">";
    if (s.chance(20)) r += " const&";
    return r;
}

PBT_FACET(prefix, "log location prefix", "the function is qualified", .quick = 40000) {
    std::string name = ident(s);
    std::string qual, want;
    std::size_t n = s.idx(4);
    for (std::size_t i = 0; i < n; ++i) {
        std::string p = s.chance(25) ? name : ident(s);
        if (s.chance(15)) p = "{anonymous}";
        qual += p;
        want += p;
        if (s.chance(30)) {
            qual += "<" + targ(s, 2);
            if (s.chance(30)) qual += ", " + targ(s, 1);
            qual += ">";
        }
        qual += "::";
        want += ":";
    }
    if (n) s.nontrivial();
    std::string pretty;
    bool has_ret = s.flip();
    if (has_ret) {
        pretty = s.chance(30) ? "static " : "";
        pretty += targ(s, 2) + " ";
    }
    pretty += qual + name + "(";
    // the scan for the name stops at the first "name(", so arguments cannot matter
    if (s.flip()) pretty += targ(s, 1);
    pretty += ")";
    if (s.flip()) pretty += " const";
    if (s.chance(40)) pretty += " [with T = " + targ(s, 1) + "]";
    s.note(pretty, " / ", name);
    // a return type or scope that itself reads "name(" cannot be generated, so the name is unambiguous,
    // unless an earlier identifier ends with it right before the parenthesis
    auto full = jogasaki::find_fullname(pretty, name);
    PBT_EQ(std::string(full), qual + name, "in ", pretty);
    auto buf = jogasaki::location_prefix<512>(full);
    PBT_EQ(std::string(buf.data()), "/:" + want + name + " ", "in ", pretty);
    s.ops += 2;
    std::string other = "zz" + name;
    PBT_EQ(std::string(jogasaki::find_fullname(pretty, other)), other, "in ", pretty);
}

// ---- diagnostics of evaluation and identifiers of variable regions
PBT_FACET(diagnostics, "diagnostics keep what was put in", "the record has several arguments", .quick = 20000) {
    namespace jx = jogasaki::executor;
    auto code = static_cast<int>(s.range(-100, 100));
    auto msg = s.utf8(12);
    bool with = s.flip();
    auto r = with ? jx::diagnostic_record<int>{code, msg} : jx::diagnostic_record<int>{code};
    std::vector<std::string> args;
    std::string want = cat("diagnostic(code=", code, ", message='", with ? msg : std::string{}, "'");
    auto n = s.idx(5);
    for (std::size_t i = 0; i < n; ++i) {
        auto& a = r.new_argument();
        std::string x;
        auto parts = s.idx(4);
        for (std::size_t j = 0; j < parts; ++j) {
            if (s.flip()) {
                auto v = s.any_int<std::int64_t>();
                a << v;
                x += std::to_string(v);
            } else {
                auto v = s.utf8(6);
                a << v << '|';
                x += v + "|";
            }
        }
        args.push_back(x);
        want += cat(i == 0 ? ", args=['" : ", '", x, "'");
    }
    want += n == 0 ? ")" : "])";
    s.note(want);
    PBT_EQ(r.code(), code, "code");
    PBT_EQ(r.message(), with ? msg : std::string{}, "message");
    PBT_EQ(r.arguments().size(), args.size(), "number of arguments");
    for (std::size_t i = 0; i < n; ++i) PBT_EQ(r.arguments()[i].str(), args[i], "argument ", i);
    std::ostringstream os;
    os << r;
    PBT_EQ(os.str(), want, "text of the record");
    auto m = std::move(r);
    PBT_EQ(m.code(), code, "code after a move");
    PBT_EQ(m.arguments().size(), args.size(), "arguments after a move");
    for (std::size_t i = 0; i < n; ++i) PBT_EQ(m.arguments()[i].str(), args[i], "argument ", i, " after a move");
    if (n > 1) s.nontrivial();
}
PBT_FACET(regions, "identifiers of variable regions", "both identifiers are defined", .quick = 20000) {
    namespace ji = jogasaki::executor::process::impl;
    struct Ref { bool defined; std::size_t i; };
    auto make = [&](Ref& r) -> ji::region_id {
        switch (s.idx(4)) {
            case 0: r = {false, 0}; return {};
            case 1: r = {true, static_cast<std::size_t>(s.any_u64())}; return ji::region_id{ji::region_kind::basic_block, r.i};
            case 2: r = {false, s.idx(3)}; return ji::region_id{ji::region_kind::undefined, r.i};
            default: r = {true, s.idx(3)}; return r.i;
        }
    };
    Ref ra{}, rb{};
    auto a = make(ra), b = make(rb);
    PBT_EQ(static_cast<bool>(a), ra.defined, "whether the identifier is defined");
    PBT_EQ(a.kind() == ji::region_kind::basic_block, ra.defined, "kind");
    if (ra.defined) PBT_EQ(a.index(), ra.i, "index");
    bool same = ra.defined == rb.defined && ra.i == rb.i;
    PBT_EQ(a == b, same, "equality of ", a, " and ", b);
    PBT_EQ(a != b, !same, "inequality of ", a, " and ", b);
    std::ostringstream os;
    os << a;
    PBT_EQ(os.str(), cat(ra.defined ? "basic_block:" : "undefined:", ra.i), "text");
    if (ra.defined && rb.defined) s.nontrivial();
}
