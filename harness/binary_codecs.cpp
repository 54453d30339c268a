// Binary <-> text codecs: base64 (RFC 4648) and hexadecimal, each against an independent model.
#include <jogasaki/utils/base64_utils.h>
#include <jogasaki/utils/hex_to_octet.h>
#include <jogasaki/utils/hex.h>

#include "pbt.h"

using namespace jogasaki::utils;
using pbt::Src;

namespace {

char const* const kAlpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string enc_model(std::string_view in) {
    std::string out;
    for (std::size_t i = 0; i < in.size(); i += 3) {
        std::size_t n = std::min<std::size_t>(3, in.size() - i);
        unsigned v = 0;
        for (std::size_t k = 0; k < 3; ++k) v = v * 256 + (k < n ? static_cast<unsigned char>(in[i + k]) : 0);
        char q[4] = {kAlpha[v / 262144], kAlpha[v / 4096 % 64], kAlpha[v / 64 % 64], kAlpha[v % 64]};
        for (std::size_t k = 0; k < 4; ++k) out += k <= n ? q[k] : '=';
    }
    return out;
}

bool is_model(std::string_view s) {
    if (s.empty() || s.size() % 4 != 0) return false;
    std::size_t pads = 0;
    while (pads < s.size() && s[s.size() - 1 - pads] == '=') ++pads;
    if (pads > 2) return false;
    for (std::size_t i = 0; i + pads < s.size(); ++i) {
        if (s[i] == 0 || std::string_view(kAlpha).find(s[i]) == std::string_view::npos) return false;
    }
    return true;
}

std::string dec_model(std::string_view s) {
    std::string bits;
    for (char c : s) {
        if (c == '=') break;
        auto v = std::string_view(kAlpha).find(c);
        for (int b = 5; b >= 0; --b) bits += (v >> b) & 1 ? '1' : '0';
    }
    std::string out;
    for (std::size_t i = 0; i + 8 <= bits.size(); i += 8) {
        int v = 0;
        for (int k = 0; k < 8; ++k) v = v * 2 + (bits[i + k] - '0');
        out += static_cast<char>(v);
    }
    return out;
}

std::string blob(Src& s) {
    switch (s.draw(5)) {
        case 0: return s.bytes(8);
        case 1: return s.bytes(64);
        case 2: return s.bytes(400);
        case 3: return std::string(s.draw(40), static_cast<char>(s.draw(255)));
        case 4: return s.bytes(3);
        default: return s.bytes(s.chance(5) ? 40000 : 1000);
    }
}

PBT_FACET(f_b64rt, "base64 encode/decode", "input of at least 2 bytes", .quick = 30000) {
    auto in = blob(s);
    s.label("len mod 3 = " + std::to_string(in.size() % 3));
    if (in.size() > 1) s.nontrivial();
    auto e = encode_base64(in);
    s.note("in=", pbt::hex(in), " enc=", e);
    PBT_EQ(e, enc_model(in));
    PBT_EQ(is_base64(e), !in.empty());
    PBT_EQ(decode_base64(e), in);
    s.ops += 3;
}

PBT_FACET(f_b64is, "base64 recognition", "a string built from a valid encoding by at least one edit", .quick = 60000) {
    std::string t;
    bool edited = true;
    if (s.chance(50)) {
        t = enc_model(s.bytes(s.chance(20) ? 200 : 20));
    } else {
        t = s.chars("ABz09+/=aQ==-_ \n@[`{:", 16);
        edited = true;
    }
    int n = static_cast<int>(s.draw(3));
    for (int i = 0; i < n && !t.empty(); ++i) {
        auto p = s.idx(t.size());
        switch (s.draw(5)) {
            case 0: t[p] = static_cast<char>(s.draw(255)); break;
            case 1: t[p] = '='; break;
            case 2: t.erase(p, 1 + s.draw(3)); break;
            case 3: t.insert(p, 1, s.pick({'=', 'A', '/', '@', '[', '`', '{', ':', '\0', '\x80', '\xff', '-', '_', ',', '.'})); break;
            case 4: t += std::string(s.draw(4), '='); break;
            default: t[t.size() - 1 - s.draw(std::min<std::size_t>(3, t.size() - 1))] = s.pick({'=', 'A', '!'}); break;
        }
    }
    if (edited && n > 0) s.nontrivial();
    auto m = is_model(t);
    s.label(m ? "valid" : "invalid");
    s.note("text=", pbt::hex(t));
    PBT_EQ(is_base64(t), m);
    ++s.ops;
    if (m) {
        PBT_EQ(decode_base64(t), dec_model(t));
        ++s.ops;
    }
}

PBT_FACET(f_hex, "hexadecimal to octets", "even-length text, or one containing a non-digit", .quick = 60000) {
    std::string t;
    std::string want;
    bool ok = true;
    if (s.chance(60)) {
        std::string b = blob(s);
        static char const lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
        bool mix = s.flip();
        u_int64_t bits = s.draw(~0ULL);
        std::size_t k = 0;
        for (unsigned char c : b) {
            bool u1 = mix ? (bits >> (k % 64)) & 1 : bits & 1;
            ++k;
            bool u2 = mix ? (bits >> (k % 64)) & 1 : bits & 1;
            ++k;
            t += (u1 ? up : lo)[c >> 4];
            t += (u2 ? up : lo)[c & 15];
        }
        want = b;
        if (!b.empty()) s.nontrivial();
        if (s.chance(30) && !t.empty()) {
            auto p = s.idx(t.size());
            if (s.flip()) {
                t.erase(p, 1);
            } else {
                t[p] = s.flip() ? static_cast<char>(s.draw(255)) : s.pick({'/', ':', '@', 'G', '`', 'g', ' ', '\0', '\x80', 'x', '-', '+'});
            }
        }
    } else {
        t = s.chars("0123456789abcdefABCDEF/:@G`gx ", 12);
        s.nontrivial();
    }
    // model
    want.clear();
    ok = t.size() % 2 == 0;
    for (std::size_t i = 0; ok && i < t.size(); i += 2) {
        int v = 0;
        for (int k = 0; k < 2; ++k) {
            auto c = static_cast<unsigned char>(t[i + k]);
            int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0) ok = false;
            v = v * 16 + d;
        }
        want += static_cast<char>(v);
    }
    std::string out = s.bytes(10);  // previous content must not matter
    s.label(ok ? "accepted" : "rejected");
    s.note("text=", pbt::hex(t));
    bool r = hex_to_octet(t, out);
    PBT_EQ(r, ok);
    if (ok) PBT_EQ(out, want);
    s.ops += 2;
}

template <class T>
void hexout(Src& s) {
    T v = s.any_int<T>();
    std::ostringstream os;
    std::size_t w = s.flip() ? s.draw(20) : sizeof(T) * 2;
    os << std::dec << "<";
    if (w == sizeof(T) * 2 && s.flip()) {
        os << hex(v);
    } else {
        os << hex(v, w);
    }
    os << ">" << 255 << std::setw(4) << 7;
    char buf[64];
    std::snprintf(buf, sizeof buf, "<%0*llx>255   7", static_cast<int>(w), static_cast<unsigned long long>(static_cast<std::make_unsigned_t<T>>(v)));
    s.note(os.str());
    PBT_EQ(os.str(), std::string(buf));
    ++s.ops;
}

PBT_FACET(f_hexout, "hexadecimal printing of integers", "every case", .quick = 20000) {
    s.nontrivial();
    switch (s.draw(3)) {
        case 0: hexout<std::uint32_t>(s); break;
        case 1: hexout<std::uint64_t>(s); break;
        case 2: hexout<std::int64_t>(s); break;
        default: hexout<std::uint16_t>(s); break;
    }
}

}  // namespace
