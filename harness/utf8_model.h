// Reference model of UTF-8 (RFC 3629), written from the standard's table, independent of the code under test.
#pragma once
#include "pbt.h"
namespace utf8m {
inline unsigned char at(std::string_view s, std::size_t i) { return i < s.size() ? static_cast<unsigned char>(s[i]) : 0; }
inline bool cont(unsigned char c) { return c >= 0x80 && c <= 0xBF; }
// length of the well-formed character at i, 0 if none (RFC 3629 section 4)
inline std::size_t strict_len(std::string_view s, std::size_t i) {
    if (i >= s.size()) return 0;
    auto a = at(s, i), b = at(s, i + 1), c = at(s, i + 2), d = at(s, i + 3);
    if (a <= 0x7F) return 1;
    if (a >= 0xC2 && a <= 0xDF) return cont(b) ? 2 : 0;
    if (a == 0xE0) return b >= 0xA0 && b <= 0xBF && cont(c) ? 3 : 0;
    if (a == 0xED) return b >= 0x80 && b <= 0x9F && cont(c) ? 3 : 0;
    if (a >= 0xE1 && a <= 0xEF) return cont(b) && cont(c) ? 3 : 0;
    if (a == 0xF0) return b >= 0x90 && b <= 0xBF && cont(c) && cont(d) ? 4 : 0;
    if (a == 0xF4) return b >= 0x80 && b <= 0x8F && cont(c) && cont(d) ? 4 : 0;
    if (a >= 0xF1 && a <= 0xF3) return cont(b) && cont(c) && cont(d) ? 4 : 0;
    return 0;
}
// lead byte with the right number of continuation bytes
inline std::size_t structural_len(std::string_view s, std::size_t i) {
    if (i >= s.size()) return 0;
    auto a = at(s, i), b = at(s, i + 1), c = at(s, i + 2), d = at(s, i + 3);
    if (a <= 0x7F) return 1;
    if (a >= 0xC2 && a <= 0xDF) return cont(b) ? 2 : 0;
    if (a >= 0xE0 && a <= 0xEF) return cont(b) && cont(c) ? 3 : 0;
    if (a >= 0xF0 && a <= 0xF4) return cont(b) && cont(c) && cont(d) ? 4 : 0;
    return 0;
}
inline bool valid(std::string_view s) {
    for (std::size_t i = 0; i < s.size();) {
        auto n = strict_len(s, i);
        if (n == 0) return false;
        i += n;
    }
    return true;
}
inline bool structural(std::string_view s) {
    for (std::size_t i = 0; i < s.size();) {
        auto n = structural_len(s, i);
        if (n == 0) return false;
        i += n;
    }
    return true;
}
inline std::string sanitize(std::string_view s) {
    std::string r;
    auto esc = [&](unsigned char c) {
        char b[12];
        std::snprintf(b, sizeof b, "\\x{%02x}", c);
        r += b;
    };
    for (std::size_t i = 0; i < s.size();) {
        auto n = strict_len(s, i);
        if (n == 0) {
            esc(at(s, i));
            ++i;
            continue;
        }
        auto a = at(s, i);
        bool ctl = (n == 1 && (a < 0x20 || a == 0x7F)) || (n == 2 && a == 0xC2 && at(s, i + 1) <= 0x9F);
        for (std::size_t k = 0; k < n; ++k) {
            if (ctl) esc(at(s, i + k));
            else r.push_back(s[i + k]);
        }
        i += n;
    }
    return r;
}
// text that is mostly UTF-8 with ill-formed pieces spliced in
inline std::string gen(pbt::Src& s, std::size_t maxcp) {
    std::string r;
    std::size_t n = s.size(maxcp);
    for (std::size_t i = 0; i < n; ++i) {
        switch (s.draw(9)) {
            case 0: case 1: case 2: case 3: r += s.code_point(); break;
            case 4: {  // truncated character
                auto c = s.code_point();
                r += c.substr(0, s.draw(c.size()));
                break;
            }
            case 5: {  // one byte of a character replaced
                auto c = s.code_point();
                c[s.idx(c.size())] = static_cast<char>(s.draw(255));
                r += c;
                break;
            }
            case 6: r.push_back(static_cast<char>(s.draw(255))); break;
            case 7: {  // lead byte of interest with interesting second byte
                r.push_back(s.pick<char>({'\xC0', '\xC1', '\xC2', '\xDF', '\xE0', '\xED', '\xEF', '\xF0', '\xF4', '\xF5', '\xF8', '\xFF', '\xFE'}));
                std::size_t k = s.draw(3);
                for (std::size_t j = 0; j < k; ++j)
                    r.push_back(s.pick<char>({'\x80', '\x8F', '\x90', '\x9F', '\xA0', '\xBF', '\x7F', '\xC0'}));
                break;
            }
            case 8: r += s.pick<std::string>({"\xC0\x80", "\xE0\x80\x80", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF4\x90\x80\x80", "\xF0\x80\x80\x80", "\xC2\x80", "\xC2\x9F", "\xC2\xA0", "\xEF\xBB\xBF", "\x7F", "\xF4\x8F\xBF\xBF"}); break;
            default: r.push_back(static_cast<char>(s.range(0, 0x1f))); break;
        }
    }
    return r;
}
}  // namespace utf8m
