// Text made safe for clients and logs; UTF-8 structure recognition.
#include "pbt.h"

#include <regex>
#include <sstream>

#include <jogasaki/utils/binary_printer.h>
#include <jogasaki/utils/convert_control_characters.h>
#include <jogasaki/utils/hex.h>
#include <jogasaki/utils/sanitize_utf8.h>
#include <jogasaki/utils/string_manipulation.h>
#include <jogasaki/utils/string_utils.h>
#include <jogasaki/utils/utf8_utils.h>

#include "utf8_model.h"

using namespace pbt;
namespace ju = jogasaki::utils;

// exact-size heap copy, so that any read past the end is caught by the sanitizer
struct exact {
    explicit exact(std::string const& s) : n(s.size()), p(new char[s.size()]) { std::memcpy(p, s.data(), n); }
    ~exact() { delete[] p; }
    exact(exact const&) = delete;
    std::string_view view() const { return {p, n}; }
    std::size_t n;
    char* p;
};

PBT_FACET(sanitize, "sanitize-utf8", "the input has a byte sequence that must be escaped next to one that must be kept",
    .quick = 400000) {
    auto in = utf8m::gen(s, 1 + s.scale() / 3);
    s.note("input=", show(in));
    exact e(in);
    auto out = ju::sanitize_utf8(e.view());
    auto expected = utf8m::sanitize(in);
    s.note("output=", show(out));
    PBT_EQ(out, expected, "input=", show(in));
    PBT_CHECK(utf8m::valid(out), "output is not well-formed UTF-8: ", show(out));
    PBT_EQ(ju::sanitize_utf8(out), out, "sanitizing is idempotent on its own output");
    s.ops += 3;
    if (!utf8m::valid(in)) s.label("ill-formed input");
    if (out != in && out.find_first_not_of("\\x{}0123456789abcdef") != std::string::npos) s.nontrivial();
    if (out == in) s.label("unchanged");
}

PBT_FACET(sanitize_concat, "sanitize-utf8-locality", "both halves non-empty and the split is at a character boundary", .quick = 150000) {
    // splitting at the start of a well-formed character never changes the result
    auto a = s.utf8(12);
    auto b = utf8m::gen(s, 12);
    s.note("a=", show(a), " b=", show(b));
    PBT_EQ(ju::sanitize_utf8(a + b), ju::sanitize_utf8(a) + ju::sanitize_utf8(b));
    s.ops++;
    if (!a.empty() && !b.empty()) s.nontrivial();
}

PBT_FACET(valid_utf8, "utf8-structure", "a multi-byte character occurs after offset 0", .quick = 400000) {
    auto in = utf8m::gen(s, 1 + s.scale() / 4);
    s.note("input=", show(in));
    exact e(in);
    auto v = e.view();
    bool got = ju::is_valid_utf8(v);
    // well-formed text is always accepted; a broken structure (bad lead byte, missing continuation) never
    if (utf8m::valid(in)) {
        PBT_CHECK(got, "well-formed UTF-8 rejected: ", show(in));
        s.label("well-formed");
    }
    if (!utf8m::structural(in)) {
        PBT_CHECK(!got, "broken UTF-8 accepted: ", show(in));
        s.label("broken");
    }
    s.ops++;
    for (std::size_t i = 0; i <= in.size(); ++i) {
        auto t = ju::detect_next_encoding(v, i);
        auto n = ju::get_byte(t);
        auto cs = utf8m::structural_len(in, i);
        auto strict = utf8m::strict_len(in, i);
        PBT_CHECK(n == 0 || n == cs, "offset ", i, ": length ", n, " structural ", cs, " in ", show(in));
        PBT_CHECK(strict == 0 || n == strict, "offset ", i, ": length ", n, " expected ", strict, " in ", show(in));
        s.ops++;
        if (i > 0 && n > 1) s.nontrivial();
    }
    if (in.size() > 1 && static_cast<unsigned char>(in.back()) >= 0xC2) {
        s.label("truncated at end");
        s.nontrivial();
    }
}

PBT_FACET(control, "control-characters", "input mixes control, printable and non-ASCII bytes", .quick = 200000) {
    auto in = s.flip() ? s.bytes(60) : utf8m::gen(s, 20);
    exact e(in);
    auto out = ju::convert_control_characters(e.view());
    std::string exp;
    bool c = false, p = false, n = false;
    for (unsigned char x : in) {
        if (x >= 0x80) {
            n = true;
            continue;
        }
        (x < 0x20 ? c : p) = true;
        exp.push_back(x < 0x20 ? '!' : static_cast<char>(x));
    }
    s.note("input=", show(in), " output=", show(out));
    PBT_EQ(out, exp, "input=", show(in));
    for (unsigned char x : out) PBT_CHECK(x >= 0x20 && x < 0x80, "control or non-ASCII byte left in log text ", show(out));
    s.ops += 2;
    if (c && p && n) s.nontrivial();
}

PBT_FACET(trims, "trim-and-prefix", "at least one space is removed or a non-empty proper prefix is compared", .quick = 200000) {
    auto in = s.flip() ? s.chars("  a\tb\xe3\x80\x80", 40) : s.bytes(30);
    exact e(in);
    auto v = e.view();
    auto r = ju::rtrim(v);
    auto l = ju::ltrim(v);
    std::size_t a = in.find_first_not_of(' ');
    std::size_t b = in.find_last_not_of(' ');
    std::string er = b == std::string::npos ? "" : in.substr(0, b + 1);
    std::string el = a == std::string::npos ? "" : in.substr(a);
    s.note("input=", show(in), " rtrim=", show(r), " ltrim=", show(l));
    PBT_EQ(r, er);
    PBT_EQ(l, el);
    auto o = s.flip() ? in.substr(0, s.draw(in.size())) : s.bytes(6);
    if (s.chance(20) && !o.empty()) o.back() = static_cast<char>(o.back() + 1);
    exact eo(o);
    bool exp = o.size() <= in.size() && std::equal(o.begin(), o.end(), in.begin());
    PBT_EQ(ju::is_prefix(v, eo.view()), exp, "target=", show(in), " prefix=", show(o));
    s.ops += 3;
    if (er.size() != in.size() || el.size() != in.size() || (!o.empty() && o.size() < in.size())) s.nontrivial();
}

static bool parse_hex(std::string const& t, std::string& out) {
    out.clear();
    if (t.size() % 2) return false;
    for (std::size_t i = 0; i < t.size(); i += 2) {
        int v = 0;
        for (int j = 0; j < 2; ++j) {
            char c = t[i + j];
            int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
            if (d < 0) return false;
            v = v * 16 + d;
        }
        out.push_back(static_cast<char>(v));
    }
    return true;
}

PBT_FACET(printer, "binary-printer", "at least two bytes, one of them >= 0x80 or < 0x10", .quick = 100000) {
    auto in = s.bytes(40);
    exact e(in);
    std::ostringstream os;
    bool hyphen = s.flip();
    // the stream's own formatting must neither matter nor be changed
    if (s.flip()) os << std::hex << std::uppercase;
    if (s.flip()) os.fill('*');
    auto fl = os.flags();
    auto fi = os.fill();
    bool upper = (fl & std::ios::uppercase) != 0;
    s.note("input=", show(in), " hyphen=", hyphen);
    ju::binary_printer bp{e.view()};
    bp.show_hyphen(hyphen);
    os << bp;
    auto t = os.str();
    PBT_CHECK(os.flags() == fl && os.fill() == fi, "stream format state changed");
    std::string back;
    std::string digits;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '-') {
            PBT_CHECK(hyphen && i % 3 == 2, "unexpected hyphen in ", show(t));
            continue;
        }
        digits.push_back(static_cast<char>(upper ? std::tolower(t[i]) : t[i]));
    }
    PBT_CHECK(parse_hex(digits, back), "not hexadecimal: ", show(t));
    PBT_EQ(back, in, "printed ", show(t));
    if (hyphen && !in.empty()) PBT_EQ(t.size(), in.size() * 3 - 1);
    s.ops += 3;
    // numeric hex printer
    auto x = s.any_u64();
    std::ostringstream oh;
    oh << ju::hex(x);
    char ref[32];
    std::snprintf(ref, sizeof ref, "%016llx", static_cast<unsigned long long>(x));
    PBT_EQ(oh.str(), std::string(ref));
    oh << ' ' << 10;
    PBT_EQ(oh.str(), std::string(ref) + " 10", "number base leaked");
    // literal style: printable ASCII as it is, every other byte as backslash u00XX; lines of a given width
    {
        std::ostringstream ol;
        if (s.flip()) ol << std::oct;
        auto lf = ol.flags();
        ju::binary_printer lp{e.view()};
        lp.cpp_literal(true);
        if (s.flip()) lp.show_hyphen(hyphen);
        ol << lp;
        std::string want;
        for (unsigned char c : in) {
            if (c >= 0x20 && c < 0x7f) {
                want.push_back(static_cast<char>(c));
                continue;
            }
            std::snprintf(ref, sizeof ref, "\\u00%02x", c);
            want += ref;
        }
        PBT_EQ(ol.str(), want, "literal style");
        PBT_CHECK(ol.flags() == lf, "stream format state changed by the literal style");
        auto width = s.size(8);
        std::ostringstream ow;
        ju::binary_printer wp{e.view().data(), e.view().size(), width};
        wp.show_hyphen(false);
        ow << wp;
        want.clear();
        for (std::size_t i = 0; i < in.size(); ++i) {
            if (i != 0 && width != 0 && i % width == 0) want.push_back('\n');
            std::snprintf(ref, sizeof ref, "%02x", static_cast<unsigned char>(in[i]));
            want += ref;
        }
        PBT_EQ(ow.str(), want, "lines of ", width, " bytes");
    }
    for (unsigned char c : in)
        if (in.size() >= 2 && (c >= 0x80 || c < 0x10)) s.nontrivial();
}
