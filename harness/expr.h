// Types, values and exact numbers shared by the harnesses that work on expressions.
#pragma once
#include <jogasaki/data/any.h>
#include <jogasaki/executor/expr/error.h>
#include <jogasaki/executor/expr/evaluator_context.h>
#include <takatori/type/blob.h>
#include <takatori/type/boolean.h>
#include <takatori/type/character.h>
#include <takatori/type/clob.h>
#include <takatori/type/date.h>
#include <takatori/type/decimal.h>
#include <takatori/type/float.h>
#include <takatori/type/int.h>
#include <takatori/type/octet.h>
#include <takatori/type/time_of_day.h>
#include <takatori/type/time_point.h>
#include <takatori/type/unknown.h>
#include "rec.h"

namespace rec {
using jogasaki::data::any;
using jogasaki::executor::expr::error_kind;
using jogasaki::executor::expr::evaluator_context;
using jogasaki::executor::expr::loss_precision_policy;
namespace tt = takatori::type;
using Type = std::shared_ptr<tt::data const>;

inline Type tk(Ty const& t) {
    switch (t.k) {
        case K::boolean: return std::make_shared<tt::boolean>();
        case K::int1: return std::make_shared<tt::int1>();
        case K::int2: return std::make_shared<tt::int2>();
        case K::int4: return std::make_shared<tt::int4>();
        case K::int8: return std::make_shared<tt::int8>();
        case K::float4: return std::make_shared<tt::float4>();
        case K::float8: return std::make_shared<tt::float8>();
        case K::decimal: return std::make_shared<tt::decimal>(t.prec, t.scale);
        case K::character: return t.varying ? std::make_shared<tt::character>(tt::varying, t.len) : std::make_shared<tt::character>(t.len);
        case K::octet: return t.varying ? std::make_shared<tt::octet>(tt::varying, t.len) : std::make_shared<tt::octet>(t.len);
        case K::date: return std::make_shared<tt::date>();
        case K::time_of_day: return std::make_shared<tt::time_of_day>(tt::with_time_zone_t{t.off});
        case K::time_point: return std::make_shared<tt::time_point>(tt::with_time_zone_t{t.off});
        case K::blob: return std::make_shared<tt::blob>();
        case K::clob: return std::make_shared<tt::clob>();
        case K::unknown: return std::make_shared<tt::unknown>();
        default: std::abort();
    }
}

inline std::ostream& operator<<(std::ostream& o, Ty const& t) {
    switch (t.k) {
        case K::decimal: return o << "DECIMAL(" << (t.prec ? std::to_string(*t.prec) : "*") << "," << (t.scale ? std::to_string(*t.scale) : "*") << ")";
        case K::character:
        case K::octet: return o << (t.varying ? "VAR" : "") << (t.k == K::octet ? "BINARY(" : "CHAR(") << (t.len ? std::to_string(*t.len) : "*") << ")";
        default: return o << t.k << (t.off ? " with time zone" : "");
    }
}

inline any to_any(V const& v, Res* res) {
    using std::in_place_type;
    if (v.null) return {};
    switch (v.k) {
        case K::boolean: return any{in_place_type<std::int8_t>, static_cast<std::int8_t>(v.i)};
        case K::int1:
        case K::int2:
        case K::int4: return any{in_place_type<std::int32_t>, static_cast<std::int32_t>(v.i)};
        case K::int8: return any{in_place_type<std::int64_t>, v.i};
        case K::float4: return any{in_place_type<float>, v.f};
        case K::float8: return any{in_place_type<double>, v.d};
        case K::decimal: return any{in_place_type<triple>, v.t};
        case K::character: return any{in_place_type<text>, text{res, v.s}};
        case K::octet: return any{in_place_type<binary>, binary{res, v.s}};
        case K::date: return any{in_place_type<dt::date>, dt::date{v.i}};
        case K::time_of_day: return any{in_place_type<dt::time_of_day>, dt::time_of_day{std::chrono::nanoseconds{v.i}}};
        case K::time_point: return any{in_place_type<dt::time_point>, dt::time_point{dt::time_point::offset_type{v.i}, std::chrono::nanoseconds{v.n}}};
        case K::blob: return any{in_place_type<jogasaki::lob::blob_reference>, jogasaki::lob::blob_reference{static_cast<u64>(v.i), jogasaki::lob::lob_data_provider::datastore}};
        case K::clob: return any{in_place_type<jogasaki::lob::clob_reference>, jogasaki::lob::clob_reference{static_cast<u64>(v.i), jogasaki::lob::lob_data_provider::datastore}};
        default: std::abort();
    }
}

// the value in an any, which must be of the runtime type of the kind
inline V from_any(any const& a, K k) {
    V v;
    v.k = k;
    PBT_CHECK(!a.error(), "an error in place of a value: ", a.to<jogasaki::executor::expr::error>());
    if (a.empty()) { v.null = true; return v; }
    auto is = [&](std::size_t ix) { PBT_CHECK(a.type_index() == ix, "a value of kind ", k, " is held as ", type_name(a)); };
    switch (k) {
        case K::boolean: is(any::index<std::int8_t>); v.i = a.to<std::int8_t>(); break;
        case K::int1:
        case K::int2:
        case K::int4: is(any::index<std::int32_t>); v.i = a.to<std::int32_t>(); break;
        case K::int8: is(any::index<std::int64_t>); v.i = a.to<std::int64_t>(); break;
        case K::float4: is(any::index<float>); v.f = a.to<float>(); break;
        case K::float8: is(any::index<double>); v.d = a.to<double>(); break;
        case K::decimal: is(any::index<triple>); v.t = a.to<triple>(); break;
        case K::character: is(any::index<text>); v.s = static_cast<std::string>(a.to<text>()); break;
        case K::octet: is(any::index<binary>); v.s = static_cast<std::string>(a.to<binary>()); break;
        case K::date: is(any::index<dt::date>); v.i = a.to<dt::date>().days_since_epoch(); break;
        case K::time_of_day: is(any::index<dt::time_of_day>); v.i = static_cast<i64>(a.to<dt::time_of_day>().time_since_epoch().count()); break;
        case K::time_point: {
            is(any::index<dt::time_point>);
            auto p = a.to<dt::time_point>();
            v.i = p.seconds_since_epoch().count();
            v.n = static_cast<std::int32_t>(p.subsecond().count());
            break;
        }
        case K::blob: is(any::index<jogasaki::lob::blob_reference>); v.i = static_cast<i64>(a.to<jogasaki::lob::blob_reference>().object_id()); break;
        case K::clob: is(any::index<jogasaki::lob::clob_reference>); v.i = static_cast<i64>(a.to<jogasaki::lob::clob_reference>().object_id()); break;
        default: std::abort();
    }
    return v;
}

// An exact decimal number: (-1)^neg * digits * 10^e, without leading or trailing zeros; no digits is zero.
struct Num {
    bool neg = false;
    std::string d{};
    i64 e = 0;
    Num& norm() {
        auto z = d.find_first_not_of('0');
        d = z == std::string::npos ? "" : d.substr(z);
        while (!d.empty() && d.back() == '0') { d.pop_back(); ++e; }
        if (d.empty()) { e = 0; neg = false; }
        return *this;
    }
    [[nodiscard]] bool zero() const { return d.empty(); }
    [[nodiscard]] i64 top() const { return e + static_cast<i64>(d.size()); }  // |x| < 10^top
    static Num of(bool neg, std::string digits, i64 e) { Num n{neg, std::move(digits), e}; return n.norm(); }
    static Num of(__int128 v) {
        bool neg = v < 0;
        unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        std::string s;
        for (; u; u /= 10) s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        return of(neg, s, 0);
    }
    static Num of(triple const& t) {
        unsigned __int128 u = static_cast<unsigned __int128>(t.coefficient_high()) << 64 | t.coefficient_low();
        std::string s;
        for (; u; u /= 10) s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        return of(t.sign() < 0, s, t.exponent());
    }
    static Num of(double v) {  // exact
        char b[1200];
        std::snprintf(b, sizeof b, "%.1080e", v);
        auto n = parse(b);
        return *n;
    }
    // a decimal literal: sign digits . digits E exponent
    static std::optional<Num> parse(std::string_view s) {
        Num n;
        std::size_t i = 0;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) n.neg = s[i++] == '-';
        bool dot = false, some = false;
        for (; i < s.size(); ++i) {
            if (s[i] >= '0' && s[i] <= '9') {
                n.d += s[i];
                some = true;
                if (dot) --n.e;
            } else if (s[i] == '.' && !dot) dot = true;
            else break;
        }
        if (!some) return {};
        if (i < s.size()) {
            if (s[i] != 'e' && s[i] != 'E') return {};
            ++i;
            bool m = false;
            if (i < s.size() && (s[i] == '+' || s[i] == '-')) m = s[i++] == '-';
            if (i == s.size()) return {};
            i64 x = 0;
            for (; i < s.size(); ++i) {
                if (s[i] < '0' || s[i] > '9') return {};
                if (x < 100000000000LL) x = x * 10 + (s[i] - '0');
            }
            n.e += m ? -x : x;
        }
        return n.norm();
    }
    // towards zero, to a multiple of 10^-scale
    [[nodiscard]] Num trunc(i64 scale) const {
        Num n = *this;
        if (n.e < -scale) {
            auto cut = -scale - n.e;
            if (cut >= static_cast<i64>(n.d.size())) n.d.clear();
            else n.d.resize(n.d.size() - static_cast<std::size_t>(cut));
            n.e = -scale;
        }
        return n.norm();
    }
    // the first n digits
    [[nodiscard]] Num first(std::size_t k) const {
        Num n = *this;
        if (n.d.size() > k) { n.e += static_cast<i64>(n.d.size() - k); n.d.resize(k); }
        return n.norm();
    }
    [[nodiscard]] static int cmp_abs(Num const& a, Num const& b) {
        if (a.zero() || b.zero()) return static_cast<int>(b.zero()) - static_cast<int>(a.zero());
        if (a.top() != b.top()) return a.top() < b.top() ? -1 : 1;
        auto x = a.d, y = b.d;
        while (x.size() < y.size()) x += '0';
        while (y.size() < x.size()) y += '0';
        return sgn(x.compare(y));
    }
    [[nodiscard]] static int cmp(Num const& a, Num const& b) {
        if (a.neg != b.neg) return a.neg ? -1 : 1;  // zero is never negative
        auto r = cmp_abs(a, b);
        return a.neg ? -r : r;
    }
    friend bool operator==(Num const& a, Num const& b) { return cmp(a, b) == 0; }
    friend std::ostream& operator<<(std::ostream& o, Num const& n) { return n.zero() ? o << "0" : o << (n.neg ? "-" : "") << (n.d.size() > 80 ? n.d.substr(0, 80) + "..." : n.d) << "E" << n.e; }
    [[nodiscard]] i64 to_i64() const {  // an integer that fits
        __int128 v = 0;
        for (char c : d) v = v * 10 + (c - '0');
        for (i64 i = 0; i < e; ++i) v *= 10;
        return static_cast<i64>(neg ? -v : v);
    }
    [[nodiscard]] std::string lit() const {
        return zero() ? "0" : (neg ? "-" : "") + d + "E" + std::to_string(e);
    }
};
}  // namespace rec
