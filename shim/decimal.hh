// Stand-in for libmpdec++ (not installed here): the part of its interface jogasaki uses, following the General Decimal
// Arithmetic Specification the way libmpdec does. Slow (boost::multiprecision) but exact.
#pragma once
#include <algorithm>
#include <cctype>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <boost/multiprecision/cpp_int.hpp>

#define MPD_Clamped 0x00000001U
#define MPD_Conversion_syntax 0x00000002U
#define MPD_Division_by_zero 0x00000004U
#define MPD_Division_impossible 0x00000008U
#define MPD_Division_undefined 0x00000010U
#define MPD_Fpu_Error 0x00000020U
#define MPD_Inexact 0x00000040U
#define MPD_Invalid_context 0x00000080U
#define MPD_Invalid_operation 0x00000100U
#define MPD_Malloc_error 0x00000200U
#define MPD_Not_implemented 0x00000400U
#define MPD_Overflow 0x00000800U
#define MPD_Rounded 0x00001000U
#define MPD_Subnormal 0x00002000U
#define MPD_Underflow 0x00004000U
#define MPD_IEEE_Invalid_operation \
    (MPD_Conversion_syntax | MPD_Division_impossible | MPD_Division_undefined | MPD_Fpu_Error | MPD_Invalid_context | MPD_Invalid_operation | MPD_Malloc_error)
enum { MPD_ROUND_UP, MPD_ROUND_DOWN, MPD_ROUND_CEILING, MPD_ROUND_FLOOR, MPD_ROUND_HALF_UP, MPD_ROUND_HALF_DOWN, MPD_ROUND_HALF_EVEN, MPD_ROUND_05UP, MPD_ROUND_TRUNC };
using mpd_ssize_t = std::int64_t;
using mpd_uint_t = std::uint64_t;

typedef enum { MPD_TRIPLE_NORMAL, MPD_TRIPLE_INF, MPD_TRIPLE_QNAN, MPD_TRIPLE_SNAN, MPD_TRIPLE_ERROR } mpd_triple_class;
typedef struct {
    mpd_triple_class tag;
    std::uint8_t sign;
    std::uint64_t hi, lo;
    std::int64_t exp;
} mpd_uint128_triple_t;

namespace decimal {
enum round : int { ROUND_UP = MPD_ROUND_UP, ROUND_DOWN, ROUND_CEILING, ROUND_FLOOR, ROUND_HALF_UP, ROUND_HALF_DOWN, ROUND_HALF_EVEN, ROUND_05UP, ROUND_TRUNC };
class DecimalException : public std::runtime_error { using std::runtime_error::runtime_error; };
class IEEEInvalidOperation : public DecimalException { using DecimalException::DecimalException; };
class ValueError : public std::runtime_error { using std::runtime_error::runtime_error; };

class Context {
public:
    Context(mpd_ssize_t prec = 16, mpd_ssize_t emax = 999999, mpd_ssize_t emin = -999999, int rnd = MPD_ROUND_HALF_EVEN,
        std::uint32_t traps = MPD_IEEE_Invalid_operation | MPD_Division_by_zero | MPD_Overflow, int clamp = 0)
        : prec_(prec), emax_(emax), emin_(emin), traps_(traps), round_(rnd), clamp_(clamp) {}
    [[nodiscard]] mpd_ssize_t prec() const { return prec_; }
    [[nodiscard]] mpd_ssize_t emax() const { return emax_; }
    [[nodiscard]] mpd_ssize_t emin() const { return emin_; }
    [[nodiscard]] mpd_ssize_t etiny() const { return emin_ - (prec_ - 1); }
    [[nodiscard]] mpd_ssize_t etop() const { return emax_ - (prec_ - 1); }
    [[nodiscard]] int round() const { return round_; }
    [[nodiscard]] int clamp() const { return clamp_; }
    [[nodiscard]] std::uint32_t status() const { return status_; }
    [[nodiscard]] std::uint32_t traps() const { return traps_; }
    void prec(mpd_ssize_t v) { prec_ = v; }
    void emax(mpd_ssize_t v) { emax_ = v; }
    void emin(mpd_ssize_t v) { emin_ = v; }
    void round(int v) { round_ = v; }
    void clamp(int v) { clamp_ = v; }
    void traps(std::uint32_t v) { traps_ = v; }
    void status(std::uint32_t v) { status_ = v; }
    void clear_status() { status_ = 0; }
    void raise(std::uint32_t s) {
        status_ |= s;
        if ((s & traps_) != 0) throw IEEEInvalidOperation("decimal operation trapped");
    }
    [[nodiscard]] std::string repr() const {
        return "Context(prec=" + std::to_string(prec_) + ", emax=" + std::to_string(emax_) + ", emin=" + std::to_string(emin_) + ", status=" + std::to_string(status_) + ")";
    }
    friend std::ostream& operator<<(std::ostream& o, Context const& c) { return o << c.repr(); }

private:
    mpd_ssize_t prec_, emax_, emin_;
    std::uint32_t traps_;
    std::uint32_t status_{};
    int round_, clamp_;
};
inline Context IEEEContext(int bits) {
    return Context{9 * (bits / 32) - 2, 3 * (mpd_ssize_t{1} << (bits / 16 + 3)), 1 - 3 * (mpd_ssize_t{1} << (bits / 16 + 3)), MPD_ROUND_HALF_EVEN, 0, 1};
}
inline Context MaxContext() { return Context{999999999999999999LL, 999999999999999999LL, -999999999999999999LL, MPD_ROUND_HALF_EVEN, MPD_IEEE_Invalid_operation, 0}; }
inline thread_local Context context{};

class Decimal {
    using big = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<>, boost::multiprecision::et_off>;
    enum kind : char { fin, inf, qnan, snan };
    kind k_{fin};
    bool neg_{};
    big c_{};
    mpd_ssize_t e_{};
    static big p10(mpd_ssize_t n) { return boost::multiprecision::pow(big{10}, static_cast<unsigned>(n)); }
    static mpd_ssize_t ndig(big const& v) { return v.is_zero() ? 1 : static_cast<mpd_ssize_t>(v.str().size()); }
    static Decimal special(kind k, bool neg = false) {
        Decimal r{};
        r.k_ = k;
        r.neg_ = neg;
        return r;
    }
    static Decimal make(bool neg, big c, mpd_ssize_t e) {
        Decimal r{};
        r.neg_ = neg;
        r.c_ = std::move(c);
        r.e_ = e;
        return r;
    }
    // drop the last n digits with rounding; tells what was lost
    static big shift_right(big const& c, mpd_ssize_t n, bool neg, int rnd, std::uint32_t& st) {
        if (n <= 0) return c;
        big q, r;
        bool half_known = true;
        int half = 0;
        if (n > ndig(c) + 1) {
            q = 0;
            r = c;
            half = r.is_zero() ? 0 : -1;
        } else {
            big p = p10(n);
            boost::multiprecision::divide_qr(c, p, q, r);
            big t = r * 2;
            half = t < p ? -1 : (t > p ? 1 : 0);
            (void)half_known;
            if (r.is_zero()) half = -1;
        }
        st |= MPD_Rounded;
        if (r.is_zero()) return q;
        st |= MPD_Inexact;
        bool up = false;
        switch (rnd) {
            case MPD_ROUND_UP: up = true; break;
            case MPD_ROUND_DOWN: case MPD_ROUND_TRUNC: up = false; break;
            case MPD_ROUND_CEILING: up = !neg; break;
            case MPD_ROUND_FLOOR: up = neg; break;
            case MPD_ROUND_HALF_UP: up = half >= 0; break;
            case MPD_ROUND_HALF_DOWN: up = half > 0; break;
            case MPD_ROUND_HALF_EVEN: up = half > 0 || (half == 0 && (q & 1) != 0); break;
            case MPD_ROUND_05UP: { auto d = static_cast<int>(q % 10); up = d == 0 || d == 5; } break;
            default: break;
        }
        if (up) ++q;
        return q;
    }
    static Decimal finalize(Decimal v, Context const& c, std::uint32_t& st) {
        if (v.k_ != fin) return v;
        if (v.c_.is_zero()) {
            auto top = c.clamp() ? c.etop() : c.emax();
            if (v.e_ > top) { v.e_ = top; st |= MPD_Clamped; }
            if (v.e_ < c.etiny()) { v.e_ = c.etiny(); st |= MPD_Clamped; }
            return v;
        }
        auto d = ndig(v.c_);
        if (v.e_ + d - 1 < c.emin()) {
            st |= MPD_Subnormal;
            if (v.e_ < c.etiny()) {
                std::uint32_t s = 0;
                v.c_ = shift_right(v.c_, c.etiny() - v.e_, v.neg_, c.round(), s);
                v.e_ = c.etiny();
                st |= s;
                if ((s & MPD_Inexact) != 0) {
                    st |= MPD_Underflow;
                    if (v.c_.is_zero()) st |= MPD_Clamped;
                }
            }
            return v;
        }
        if (d > c.prec()) {
            v.c_ = shift_right(v.c_, d - c.prec(), v.neg_, c.round(), st);
            v.e_ += d - c.prec();
            d = ndig(v.c_);
            if (d > c.prec()) {
                v.c_ /= 10;
                ++v.e_;
                d = ndig(v.c_);
            }
        }
        if (v.e_ + d - 1 > c.emax()) {
            st |= MPD_Overflow | MPD_Inexact | MPD_Rounded;
            bool to_max = c.round() == MPD_ROUND_DOWN || c.round() == MPD_ROUND_TRUNC || c.round() == MPD_ROUND_05UP ||
                (c.round() == MPD_ROUND_CEILING && v.neg_) || (c.round() == MPD_ROUND_FLOOR && !v.neg_);
            if (to_max) return make(v.neg_, p10(c.prec()) - 1, c.emax() - c.prec() + 1);
            return special(inf, v.neg_);
        }
        if (c.clamp() && v.e_ > c.etop()) {
            v.c_ *= p10(v.e_ - c.etop());
            v.e_ = c.etop();
            st |= MPD_Clamped;
        }
        return v;
    }
    static Decimal done(Decimal v, std::uint32_t st) {
        context.raise(st);
        return v;
    }
    static bool nan_op(Decimal const& a, Decimal const& b, Decimal& out, std::uint32_t& st) {
        if (!a.isnan() && !b.isnan()) return false;
        if (a.k_ == snan || b.k_ == snan) st |= MPD_Invalid_operation;
        auto const& s = a.k_ == snan ? a : (b.k_ == snan ? b : (a.isnan() ? a : b));
        out = special(qnan, s.neg_);
        return true;
    }
    static int cmp_abs(Decimal const& a, Decimal const& b) {
        if (a.c_.is_zero() || b.c_.is_zero()) return a.c_.is_zero() ? (b.c_.is_zero() ? 0 : -1) : 1;
        auto x = a.e_ + ndig(a.c_), y = b.e_ + ndig(b.c_);
        if (x != y) return x < y ? -1 : 1;
        if (a.e_ >= b.e_) return (a.c_ * p10(a.e_ - b.e_)).compare(b.c_);
        return a.c_.compare(b.c_ * p10(b.e_ - a.e_));
    }
    static int cmp(Decimal const& a, Decimal const& b) {
        auto s = [](Decimal const& v) { return v.k_ == fin && v.c_.is_zero() ? 0 : (v.neg_ ? -1 : 1); };
        if (s(a) != s(b)) return s(a) < s(b) ? -1 : 1;
        if (s(a) == 0) return 0;
        if (a.k_ == inf || b.k_ == inf) {
            if (a.k_ == b.k_) return 0;
            return (a.k_ == inf ? 1 : -1) * s(a);
        }
        auto r = cmp_abs(a, b);
        return a.neg_ ? -r : r;
    }
    static Decimal add(Decimal const& a, Decimal b, bool negate, Context const& c, std::uint32_t& st) {
        Decimal out{};
        if (nan_op(a, b, out, st)) return out;
        if (negate) b.neg_ = !b.neg_;
        if (a.k_ == inf || b.k_ == inf) {
            if (a.k_ == inf && b.k_ == inf && a.neg_ != b.neg_) {
                st |= MPD_Invalid_operation;
                return special(qnan);
            }
            return a.k_ == inf ? a : b;
        }
        auto e = std::min(a.e_, b.e_);
        auto gap = std::max(a.e_, b.e_) - e;
        Decimal x = a, y = b;
        if (gap > 0) {
            // a far smaller operand only matters as a sticky digit
            auto& big_e = x.e_ > y.e_ ? x : y;
            auto& small_e = x.e_ > y.e_ ? y : x;
            if (!big_e.c_.is_zero() && !small_e.c_.is_zero() && big_e.e_ - 3 - c.prec() - 1 > small_e.e_ + ndig(small_e.c_)) {
                small_e.c_ = 1;
                small_e.e_ = big_e.e_ - 3 - c.prec() - 1;
            } else if (big_e.c_.is_zero()) {
                big_e.e_ = small_e.e_;
            } else if (small_e.c_.is_zero() && big_e.e_ - small_e.e_ > c.prec() + 1) {
                small_e.e_ = std::max(small_e.e_, big_e.e_ - c.prec() - 1);
            }
            e = std::min(x.e_, y.e_);
        }
        big p = x.c_ * p10(x.e_ - e), q = y.c_ * p10(y.e_ - e);
        if (x.neg_) p = -p;
        if (y.neg_) q = -q;
        big r = p + q;
        bool neg = r < 0;
        if (r.is_zero()) neg = x.neg_ == y.neg_ ? x.neg_ : c.round() == MPD_ROUND_FLOOR;
        return finalize(make(neg, neg && !r.is_zero() ? big(-r) : r, e), c, st);
    }
    void parse(std::string const& s, std::uint32_t& st) {
        std::size_t i = 0;
        bool neg = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        std::string rest = s.substr(i);
        std::string low;
        for (char c : rest) low += static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
        auto bad = [&] {
            st |= MPD_Conversion_syntax;
            *this = special(qnan);
        };
        if (low == "inf" || low == "infinity") { *this = special(inf, neg); return; }
        for (auto [n, k] : {std::pair{"nan", qnan}, std::pair{"snan", snan}}) {
            std::string nm{n};
            if (low.compare(0, nm.size(), nm) == 0) {
                auto pay = low.substr(nm.size());
                if (!std::all_of(pay.begin(), pay.end(), [](unsigned char c) { return std::isdigit(c) != 0; })) return bad();
                *this = special(k, neg);
                return;
            }
        }
        std::string digs;
        mpd_ssize_t frac = 0;
        bool dot = false, any = false;
        std::size_t j = 0;
        for (; j < low.size(); ++j) {
            char c = low[j];
            if (c >= '0' && c <= '9') {
                digs += c;
                any = true;
                if (dot) ++frac;
            } else if (c == '.' && !dot) {
                dot = true;
            } else {
                break;
            }
        }
        if (!any) return bad();
        mpd_ssize_t ex = 0;
        if (j < low.size()) {
            if (low[j] != 'e') return bad();
            ++j;
            bool en = false;
            if (j < low.size() && (low[j] == '+' || low[j] == '-')) en = low[j++] == '-';
            if (j >= low.size()) return bad();
            for (; j < low.size(); ++j) {
                if (low[j] < '0' || low[j] > '9') return bad();
                if (ex < 2000000000000000000LL / 10) ex = ex * 10 + (low[j] - '0');
                else ex = 2000000000000000000LL;
            }
            if (en) ex = -ex;
        }
        auto nz = digs.find_first_not_of('0');
        big c = nz == std::string::npos ? big{0} : big{digs.substr(nz)};
        auto e = ex - frac;
        auto adj = e + ndig(c) - 1;
        if (!c.is_zero() && (adj > 999999999999999999LL || adj < -999999999999999999LL - 999999999999999998LL)) {
            st |= MPD_Invalid_operation;
            *this = special(qnan);
            return;
        }
        if (c.is_zero()) e = std::clamp(e, mpd_ssize_t{-1999999999999999997LL}, mpd_ssize_t{999999999999999999LL});
        *this = make(neg, std::move(c), e);
    }
    template <class T>
    T to_int() const {
        if (k_ != fin) { context.raise(MPD_Invalid_operation); throw ValueError("cannot convert special value to integer"); }
        big v = c_;
        if (e_ > 0) {
            if (!v.is_zero() && e_ > 60) { context.raise(MPD_Invalid_operation); throw ValueError("integer out of range"); }
            if (!v.is_zero()) v *= p10(e_);
        } else if (e_ < 0 && !v.is_zero()) {
            if (-e_ > ndig(v)) { context.raise(MPD_Invalid_operation); throw ValueError("not an integer"); }
            big q, r;
            boost::multiprecision::divide_qr(v, p10(-e_), q, r);
            if (!r.is_zero()) { context.raise(MPD_Invalid_operation); throw ValueError("not an integer"); }
            v = q;
        }
        if (neg_) v = -v;
        if (v < big{std::numeric_limits<T>::min()} || v > big{std::numeric_limits<T>::max()}) {
            context.raise(MPD_Invalid_operation);
            throw ValueError("integer out of range");
        }
        return static_cast<T>(v);
    }

public:
    Decimal() = default;
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>>
    Decimal(T v) : neg_(v < 0), c_(v < 0 ? -big{v} : big{v}) {}
    explicit Decimal(std::string const& s) {
        std::uint32_t st = 0;
        parse(s, st);
        context.raise(st);
    }
    explicit Decimal(char const* s) : Decimal(std::string{s}) {}
    [[nodiscard]] mpd_uint128_triple_t as_uint128_triple() const {
        mpd_uint128_triple_t t{};
        if (k_ == inf) t.tag = MPD_TRIPLE_INF;
        else if (k_ == qnan) t.tag = MPD_TRIPLE_QNAN;
        else if (k_ == snan) t.tag = MPD_TRIPLE_SNAN;
        else if ((c_ >> 128) != 0) t.tag = MPD_TRIPLE_ERROR;
        t.sign = neg_ ? 1 : 0;
        if (t.tag != MPD_TRIPLE_NORMAL) return t;
        t.hi = static_cast<std::uint64_t>(c_ >> 64);
        t.lo = static_cast<std::uint64_t>(c_ & std::numeric_limits<std::uint64_t>::max());
        t.exp = e_;
        return t;
    }
    [[nodiscard]] big coefficient_() const { return c_; }
    static Decimal raw_(bool neg, std::uint64_t hi, std::uint64_t lo, std::int64_t e) {
        big c = hi;
        c <<= 64;
        c |= lo;
        return make(neg, c, e);
    }
    struct view_ {
        mpd_ssize_t digits;
        mpd_ssize_t exp;
        view_ const* operator->() const { return this; }
    };
    [[nodiscard]] view_ get() const { return {k_ == fin ? ndig(c_) : 0, e_}; }
    [[nodiscard]] view_ getconst() const { return get(); }
    [[nodiscard]] int sign() const { return neg_ ? -1 : 1; }
    [[nodiscard]] mpd_ssize_t exponent() const { return e_; }
    [[nodiscard]] mpd_ssize_t adjexp() const { return e_ + ndig(c_) - 1; }
    [[nodiscard]] Decimal coeff() const {
        if (k_ != fin) throw ValueError("coefficient of special value");
        return make(false, c_, 0);
    }
    [[nodiscard]] bool isnan() const { return k_ == qnan || k_ == snan; }
    [[nodiscard]] bool isqnan() const { return k_ == qnan; }
    [[nodiscard]] bool issnan() const { return k_ == snan; }
    [[nodiscard]] bool isinfinite() const { return k_ == inf; }
    [[nodiscard]] bool isfinite() const { return k_ == fin; }
    [[nodiscard]] bool isspecial() const { return k_ != fin; }
    [[nodiscard]] bool issigned() const { return neg_; }
    [[nodiscard]] bool iszero() const { return k_ == fin && c_.is_zero(); }
    [[nodiscard]] bool isinteger() const {
        if (k_ != fin) return false;
        if (e_ >= 0 || c_.is_zero()) return true;
        if (-e_ > ndig(c_)) return false;
        return (c_ % p10(-e_)).is_zero();
    }
    [[nodiscard]] std::int64_t i64() const { return to_int<std::int64_t>(); }
    [[nodiscard]] std::int32_t i32() const { return to_int<std::int32_t>(); }
    [[nodiscard]] std::uint64_t u64() const { return to_int<std::uint64_t>(); }
    [[nodiscard]] std::uint32_t u32() const { return to_int<std::uint32_t>(); }
    [[nodiscard]] Decimal copy_sign(Decimal const& o) const { auto r = *this; r.neg_ = o.neg_; return r; }
    [[nodiscard]] Decimal copy_abs() const { auto r = *this; r.neg_ = false; return r; }
    [[nodiscard]] Decimal copy_negate() const { auto r = *this; r.neg_ = !neg_; return r; }
    [[nodiscard]] Decimal abs() const { return plus_(copy_abs()); }
    [[nodiscard]] Decimal reduce(Context& c = context) const {
        std::uint32_t st = 0;
        if (isnan()) return done(special(qnan, neg_), k_ == snan ? MPD_Invalid_operation : 0);
        auto v = finalize(*this, c, st);
        if (v.k_ == fin) {
            if (v.c_.is_zero()) {
                v.e_ = 0;
            } else {
                auto top = c.clamp() ? c.etop() : c.emax();
                while (v.e_ < top && (v.c_ % 10).is_zero()) {
                    v.c_ /= 10;
                    ++v.e_;
                }
            }
        }
        c.raise(st);
        return v;
    }
    [[nodiscard]] Decimal rescale(mpd_ssize_t e, Context& c = context) const {
        if (k_ != fin) return *this;
        std::uint32_t st = 0;
        Decimal r{};
        if (e > 1000000000000000000LL || e < -1999999999999999998LL) {
            st = MPD_Invalid_operation;
            r = special(qnan);
        } else if (c_.is_zero()) {
            r = make(neg_, 0, e);
        } else if (e_ >= e) {
            if (e_ - e > 10000000) {
                st = MPD_Invalid_operation;
                r = special(qnan);
            } else {
                r = make(neg_, c_ * p10(e_ - e), e);
            }
        } else {
            r = make(neg_, shift_right(c_, e - e_, neg_, c.round(), st), e);
        }
        c.raise(st);
        return r;
    }
    [[nodiscard]] Decimal quantize(Decimal const& o, Context& c = context) const {
        std::uint32_t st = 0;
        auto r = rescale(o.e_, c);
        if (r.k_ == fin && ndig(r.c_) > c.prec()) { st = MPD_Invalid_operation; r = special(qnan); }
        c.raise(st);
        return r;
    }
    [[nodiscard]] Decimal to_integral(Context& c = context) const {
        if (k_ != fin || e_ >= 0) return *this;
        std::uint32_t st = 0;
        return make(neg_, shift_right(c_, -e_, neg_, c.round(), st), 0);
    }
    [[nodiscard]] Decimal to_integral_exact(Context& c = context) const {
        if (k_ != fin || e_ >= 0) return *this;
        std::uint32_t st = 0;
        auto r = make(neg_, shift_right(c_, -e_, neg_, c.round(), st), 0);
        c.raise(st);
        return r;
    }
    [[nodiscard]] Decimal scaleb(Decimal const& n, Context& c = context) const {
        std::uint32_t st = 0;
        Decimal r{};
        if (nan_op(*this, n, r, st)) { c.raise(st); return r; }
        auto lim = 2 * (c.emax() + c.prec());
        if (n.k_ != fin || !n.isinteger() || cmp(n, Decimal{lim}) > 0 || cmp(n, Decimal{-lim}) < 0) {
            c.raise(MPD_Invalid_operation);
            return special(qnan);
        }
        if (k_ == inf) return *this;
        r = *this;
        r.e_ += n.to_int<std::int64_t>();
        r = finalize(std::move(r), c, st);
        c.raise(st);
        return r;
    }
    Decimal operator-() const {
        if (isnan()) return done(special(qnan, neg_), k_ == snan ? MPD_Invalid_operation : 0);
        auto v = copy_negate();
        if (iszero()) v.neg_ = context.round() == MPD_ROUND_FLOOR && !neg_;
        return plus_(v);
    }
    Decimal operator+() const { return plus_(*this); }
    static Decimal plus_(Decimal const& v) {
        if (v.isnan()) return v;
        std::uint32_t st = 0;
        auto r = finalize(v, context, st);
        return done(std::move(r), st);
    }
    friend Decimal operator+(Decimal const& a, Decimal const& b) {
        std::uint32_t st = 0;
        auto r = add(a, b, false, context, st);
        return done(std::move(r), st);
    }
    friend Decimal operator-(Decimal const& a, Decimal const& b) {
        std::uint32_t st = 0;
        auto r = add(a, b, true, context, st);
        return done(std::move(r), st);
    }
    friend Decimal operator*(Decimal const& a, Decimal const& b) {
        std::uint32_t st = 0;
        Decimal out{};
        if (nan_op(a, b, out, st)) return done(out, st);
        bool neg = a.neg_ != b.neg_;
        if (a.k_ == inf || b.k_ == inf) {
            if (a.iszero() || b.iszero()) return done(special(qnan), MPD_Invalid_operation);
            return special(inf, neg);
        }
        auto r = finalize(make(neg, a.c_ * b.c_, a.e_ + b.e_), context, st);
        return done(std::move(r), st);
    }
    friend Decimal operator/(Decimal const& a, Decimal const& b) {
        std::uint32_t st = 0;
        Decimal out{};
        if (nan_op(a, b, out, st)) return done(out, st);
        bool neg = a.neg_ != b.neg_;
        if (a.k_ == inf) {
            if (b.k_ == inf) return done(special(qnan), MPD_Invalid_operation);
            return special(inf, neg);
        }
        if (b.k_ == inf) return done(make(neg, 0, context.etiny()), MPD_Clamped);
        if (b.c_.is_zero()) {
            if (a.c_.is_zero()) return done(special(qnan), MPD_Division_undefined);
            return done(special(inf, neg), MPD_Division_by_zero);
        }
        auto ideal = a.e_ - b.e_;
        Decimal r{};
        if (a.c_.is_zero()) {
            r = make(neg, 0, ideal);
        } else {
            auto shift = ndig(b.c_) - ndig(a.c_) + context.prec() + 1;
            auto e = ideal - shift;
            big x = a.c_, y = b.c_, q, m;
            if (shift >= 0) x *= p10(shift);
            else y *= p10(-shift);
            boost::multiprecision::divide_qr(x, y, q, m);
            if (!m.is_zero()) {
                if ((q % 5).is_zero()) ++q;
            } else {
                while (e < ideal && (q % 10).is_zero()) {
                    q /= 10;
                    ++e;
                }
            }
            r = make(neg, q, e);
        }
        r = finalize(std::move(r), context, st);
        return done(std::move(r), st);
    }
    friend Decimal operator%(Decimal const& a, Decimal const& b) {
        std::uint32_t st = 0;
        Decimal out{};
        if (nan_op(a, b, out, st)) return done(out, st);
        if (a.k_ == inf) return done(special(qnan), MPD_Invalid_operation);
        if (b.k_ == fin && b.c_.is_zero()) {
            return done(special(qnan), a.c_.is_zero() ? MPD_Division_undefined : MPD_Invalid_operation);
        }
        Decimal r{};
        if (b.k_ == inf) {
            r = a;
        } else {
            auto ideal = std::min(a.e_, b.e_);
            auto gap = a.adjexp() - b.adjexp();
            if (a.c_.is_zero()) {
                r = make(a.neg_, 0, ideal);
            } else if (gap <= -2) {
                r = a.e_ - ideal > 100000 ? a : make(a.neg_, a.c_ * p10(a.e_ - ideal), ideal);
            } else if (gap > context.prec()) {
                return done(special(qnan), MPD_Division_impossible);
            } else {
                big x = a.c_, y = b.c_, q, m;
                if (a.e_ >= b.e_) x *= p10(a.e_ - b.e_);
                else y *= p10(b.e_ - a.e_);
                boost::multiprecision::divide_qr(x, y, q, m);
                if (ndig(q) > context.prec()) return done(special(qnan), MPD_Division_impossible);
                r = make(a.neg_, m, ideal);
            }
        }
        r = finalize(std::move(r), context, st);
        return done(std::move(r), st);
    }
    Decimal& operator+=(Decimal const& o) { return *this = *this + o; }
    Decimal& operator-=(Decimal const& o) { return *this = *this - o; }
    Decimal& operator*=(Decimal const& o) { return *this = *this * o; }
    Decimal& operator/=(Decimal const& o) { return *this = *this / o; }
    static bool ordered_(Decimal const& a, Decimal const& b) {
        if (!a.isnan() && !b.isnan()) return true;
        context.raise(MPD_Invalid_operation);
        return false;
    }
    friend bool operator==(Decimal const& a, Decimal const& b) {
        if (a.issnan() || b.issnan()) context.raise(MPD_Invalid_operation);
        return !a.isnan() && !b.isnan() && cmp(a, b) == 0;
    }
    friend bool operator!=(Decimal const& a, Decimal const& b) { return !(a == b); }
    friend bool operator<(Decimal const& a, Decimal const& b) { return ordered_(a, b) && cmp(a, b) < 0; }
    friend bool operator<=(Decimal const& a, Decimal const& b) { return ordered_(a, b) && cmp(a, b) <= 0; }
    friend bool operator>(Decimal const& a, Decimal const& b) { return ordered_(a, b) && cmp(a, b) > 0; }
    friend bool operator>=(Decimal const& a, Decimal const& b) { return ordered_(a, b) && cmp(a, b) >= 0; }
    [[nodiscard]] std::string to_sci(bool cap = true) const { return str_(cap, false); }
    [[nodiscard]] std::string to_eng(bool cap = true) const { return str_(cap, true); }
    [[nodiscard]] std::string str_(bool cap, bool eng) const {
        std::string s = neg_ ? "-" : "";
        if (k_ == inf) return s + "Infinity";
        if (k_ == qnan) return s + "NaN";
        if (k_ == snan) return s + "sNaN";
        auto d = c_.str();
        auto left = e_ + static_cast<mpd_ssize_t>(d.size());
        mpd_ssize_t dot;
        if (e_ <= 0 && left > -6) dot = left;
        else if (!eng) dot = 1;
        else if (c_.is_zero()) dot = ((left + 1) % 3 + 3) % 3 - 1;
        else dot = ((left - 1) % 3 + 3) % 3 + 1;
        std::string ip, fp;
        if (dot <= 0) {
            ip = "0";
            fp = "." + std::string(static_cast<std::size_t>(-dot), '0') + d;
        } else if (dot >= static_cast<mpd_ssize_t>(d.size())) {
            ip = d + std::string(static_cast<std::size_t>(dot) - d.size(), '0');
        } else {
            ip = d.substr(0, static_cast<std::size_t>(dot));
            fp = "." + d.substr(static_cast<std::size_t>(dot));
        }
        std::string ex;
        if (left != dot) {
            ex = cap ? "E" : "e";
            ex += (left - dot) < 0 ? "-" : "+";
            ex += std::to_string(std::llabs(left - dot));
        }
        return s + ip + fp + ex;
    }
    [[nodiscard]] std::string repr() const { return "Decimal(\"" + to_sci() + "\")"; }
    friend std::ostream& operator<<(std::ostream& o, Decimal const& v) { return o << v.to_sci(); }
};
}  // namespace decimal
