// The documented storage format of keys and values, written down once more.
#pragma once
#include "rec.h"

namespace rec {
inline void be(std::string& o, u64 v, int n) {
    for (int i = n - 1; i >= 0; --i) o += static_cast<char>(v >> (8 * i));
}
inline std::size_t decimal_bytes(std::size_t p) {
    auto m = p10(p) - 1;  // largest magnitude; n bytes hold it with a sign bit
    for (std::size_t n = 1;; ++n) {
        if (n == 16) return 16;
        if (m < static_cast<unsigned __int128>(1) << (8 * n - 1)) return n;
    }
}
inline std::string reference(Ty const& t, bool nullable, bool asc, V const& v, bool write = true) {
    std::string o;
    if (nullable) {
        o += v.null ? '\x80' : '\x81';
    }
    if (!(nullable && v.null)) {
        switch (v.k) {
            case K::boolean: o += static_cast<char>(v.i ^ 0x80); break;
            case K::int1:
            case K::int2:
            case K::int4: be(o, static_cast<u64>(v.i) ^ 0x80000000U, 4); break;
            case K::int8:
            case K::date:
            case K::time_of_day: be(o, static_cast<u64>(v.i) ^ (1ULL << 63), 8); break;
            case K::time_point:
                be(o, static_cast<u64>(v.i) ^ (1ULL << 63), 8);
                be(o, static_cast<u64>(v.n) ^ 0x80000000U, 4);
                break;
            case K::float4: {
                std::uint32_t u = 0;
                auto f = v.f == 0 ? 0.0F : v.f;
                std::memcpy(&u, &f, 4);
                if (std::isnan(f)) u = 0x7fc00000;
                be(o, (u & 0x80000000U) ? ~u : u ^ 0x80000000U, 4);
                break;
            }
            case K::float8: {
                u64 u = 0;
                auto f = v.d == 0 ? 0.0 : v.d;
                std::memcpy(&u, &f, 8);
                if (std::isnan(f)) u = 0x7ff8000000000000ULL;
                be(o, (u >> 63) ? ~u : u ^ (1ULL << 63), 8);
                break;
            }
            case K::decimal: {
                auto x = static_cast<unsigned __int128>(v.t.coefficient_high()) << 64 | v.t.coefficient_low();
                for (auto e = -v.t.exponent(); e < static_cast<int>(*t.scale); ++e) x *= 10;
                for (auto e = -v.t.exponent(); e > static_cast<int>(*t.scale); --e) x /= 10;
                if (v.t.sign() < 0) x = ~x + 1;
                auto n = decimal_bytes(*t.prec);
                for (auto i = static_cast<int>(n) - 1; i >= 0; --i) o += static_cast<char>(x >> (8 * i));
                o[nullable ? 1 : 0] = static_cast<char>(o[nullable ? 1 : 0] ^ 0x80);
                break;
            }
            case K::character:
                o += v.s;
                if (write && !t.varying) o += std::string(max_len(t) - v.s.size(), ' ');
                o += std::string(4, '\0');
                break;
            case K::octet:
                if (t.varying) be(o, v.s.size(), 4);
                o += v.s;
                if (write && !t.varying) o += std::string(max_len(t) - v.s.size(), '\0');
                break;
            case K::blob:
            case K::clob: be(o, static_cast<u64>(v.i), 8); break;
            default: std::abort();
        }
    }
    if (!asc) for (auto& x : o) x = static_cast<char>(~x);
    return o;
}
// what reading back gives
inline V stored(Ty const& t, V v) {
    if (v.null) return v;
    if (v.k == K::float4 && v.f == 0) v.f = 0;
    if (v.k == K::float8 && v.d == 0) v.d = 0;
    if (v.k == K::decimal) {
        auto x = static_cast<unsigned __int128>(v.t.coefficient_high()) << 64 | v.t.coefficient_low();
        for (auto e = -v.t.exponent(); e < static_cast<int>(*t.scale); ++e) x *= 10;
        for (auto e = -v.t.exponent(); e > static_cast<int>(*t.scale); --e) x /= 10;
        v.t = triple{v.t.sign(), static_cast<u64>(x >> 64), static_cast<u64>(x), -static_cast<int>(*t.scale)};
    }
    if (v.k == K::character && !t.varying) v.s += std::string(max_len(t) - v.s.size(), ' ');
    if (v.k == K::octet && !t.varying) v.s += std::string(max_len(t) - v.s.size(), '\0');
    return v;
}
}  // namespace rec
