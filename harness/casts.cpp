// P20: SQL casts.
#include <jogasaki/datastore/find_path_by_lob_id.h>
#include <jogasaki/datastore/register_lob.h>
#include <jogasaki/error/error_info_factory.h>
#include <jogasaki/executor/expr/details/cast_evaluation.h>
#include <jogasaki/executor/expr/details/decimal_context.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/utils/read_lob_file.h>
#include "expr.h"
#include "globals.inc"
#include "no_request.inc"
#include "utf8_model.h"

using namespace rec;
namespace je = jogasaki::executor::expr;
using P = loss_precision_policy;

// large objects of the data store
namespace {
std::map<u64, std::string> lobs;
int lob_fault = 0;  // 1: registering, 2: finding, 3: reading fails
std::shared_ptr<jogasaki::error::error_info> fault() {
    return create_error_info(jogasaki::error_code::lob_file_io_error, "fault", jogasaki::status::err_io_error);
}
}  // namespace
namespace jogasaki {
namespace datastore {
status register_lob_data(std::string_view data, transaction_context*, lob::lob_id_type& out, std::shared_ptr<error::error_info>& error) {
    if (lob_fault == 1) { error = fault(); return status::err_io_error; }
    out = lobs.size() + 1;
    lobs[out] = std::string{data};
    return status::ok;
}
status find_path_by_lob_id(lob::lob_id_type id, std::string& path, std::shared_ptr<error::error_info>& error) {
    if (lob_fault == 2 || lobs.count(id) == 0) { error = fault(); return status::err_invalid_state; }
    path = std::to_string(id);
    return status::ok;
}
}  // namespace datastore
namespace utils {
status read_lob_file(std::string_view path, std::string& out, std::shared_ptr<error::error_info>& error) {
    if (lob_fault == 3) { error = fault(); return status::err_io_error; }
    out = lobs.at(std::stoull(std::string{path}));
    return status::ok;
}
}  // namespace utils
}  // namespace jogasaki

namespace {
struct Cast {
    Res res{};
    evaluator_context ctx{&res};
    any out{};
    P policy = P::ignore;
    [[nodiscard]] std::optional<error_kind> err() const {
        if (!out.error()) return {};
        return out.to<je::error>().kind();
    }
};

void config(bool small, bool boolean, bool lob, int zone = 0) {
    auto& c = *jogasaki::global::config_pool();
    c.support_smallint(small);
    c.support_boolean(boolean);
    c.enable_blob_cast(lob);
    c.zone_offset(zone);
}

void run(Src& s, Cast& c, Ty const& from, V const& v, Ty const& to) {
    c.ctx.set_loss_precision_policy(c.policy);
    auto a = to_any(v, &c.res);
    c.out = je::details::conduct_cast(c.ctx, *tk(from), *tk(to), a);
    s.note("CAST(", v, " : ", from, " AS ", to, ") policy ", c.policy, " -> ", c.out, c.ctx.lost_precision() ? " lost precision" : "");
    PBT_EQ(decimal::context.round(), static_cast<int>(MPD_ROUND_HALF_EVEN), "the rounding of later decimal arithmetic is changed");
    PBT_EQ(decimal::context.prec(), 38, "the precision of later decimal arithmetic is changed");
    if (c.out.error()) {
        PBT_CHECK(c.out.to<je::error>().kind() != error_kind::undefined, "error of no kind");
    } else if (c.policy != P::warn) {
        PBT_CHECK(c.ctx.errors().empty(), "a successful cast leaves an error record");
    }
}

P gen_policy(Src& s) {
    return s.chance(50) ? P::ignore : s.pick({P::ignore, P::floor, P::ceil, P::unknown, P::warn, P::error, P::implicit});
}

// what every cast does when the result is, or is not, the exact value. Returns whether there is a value to look at.
bool judge(Cast& c, bool lossy, error_kind lost = error_kind::lost_precision) {
    PBT_EQ(c.ctx.lost_precision(), lossy, "lost_precision()");
    if (!lossy) {
        PBT_CHECK(!c.out.error(), "error ", c.out, " for a value that can be represented");
        PBT_CHECK(!c.out.empty(), "null for a value that can be represented");
        PBT_CHECK(c.ctx.errors().empty(), "warning for a value that can be represented");
        return true;
    }
    switch (c.policy) {
        case P::ignore:
            PBT_CHECK(!c.out.error() && !c.out.empty(), c.out, " under the policy ignore");
            return true;
        case P::warn:
            PBT_CHECK(!c.out.error() && !c.out.empty(), c.out, " under the policy warn");
            PBT_CHECK(!c.ctx.errors().empty() && c.ctx.errors().front().code() == lost, "no warning of the lost precision");
            return true;
        case P::unknown:
            PBT_CHECK(!c.out.error(), c.out, " under the policy unknown");
            return !c.out.empty();
        case P::floor:
        case P::ceil:
            PBT_CHECK(c.err() == error_kind::unsupported, c.out, " under a policy that is not supported");
            break;
        case P::error:
        case P::implicit:
            PBT_CHECK(c.err() == lost, c.out, " under a policy that rejects lost precision");
            break;
    }
    PBT_CHECK(!c.ctx.errors().empty() && c.ctx.errors().front().code() == *c.err(), "the error comes without a record of it");
    return false;
}

void expect_error(Cast& c, error_kind e, std::string const& why) {
    PBT_CHECK(c.err() == e, c.out, " in place of ", e, ": ", why);
    if (e != error_kind::unsupported) PBT_CHECK(!c.ctx.errors().empty() && c.ctx.errors().front().code() == e, "the error comes without a record of it");
}

__int128 imin(K k) { return k == K::int1 ? INT8_MIN : k == K::int2 ? INT16_MIN : k == K::int4 ? INT32_MIN : INT64_MIN; }
__int128 imax(K k) { return k == K::int1 ? INT8_MAX : k == K::int2 ? INT16_MAX : k == K::int4 ? INT32_MAX : INT64_MAX; }

// an integer near where integers matter
__int128 gen_int(Src& s, K near) {
    switch (s.idx(5)) {
        case 0: return s.range(-3, 3);
        case 1: return imax(near) + s.range(-3, 3);
        case 2: return imin(near) + s.range(-3, 3);
        case 3: return (static_cast<__int128>(1) << s.range(0, 66)) * (s.flip() ? -1 : 1) + s.range(-1, 1);
        default: return s.any_int<i64>();
    }
}

std::string digits_of(unsigned __int128 u) {
    std::string r;
    for (; u; u /= 10) r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
    return r.empty() ? "0" : r;
}

std::string gen_digits(Src& s, std::size_t most) {
    auto n = static_cast<std::size_t>(s.range(1, static_cast<i64>(most)));
    std::string r;
    switch (s.idx(4)) {
        case 0: for (std::size_t i = 0; i < n; ++i) r += static_cast<char>('0' + s.range(0, 9)); break;
        case 1: r = std::string(n, '9'); break;
        case 2: r = "1" + std::string(n - 1, '0'); break;
        default: r = std::string(n, '0'); r[0] = static_cast<char>('0' + s.range(0, 9)); r[n - 1] = static_cast<char>('0' + s.range(0, 9)); break;
    }
    return r;
}

// a decimal value of at most 38 digits
triple gen_triple(Src& s, K near) {
    if (s.chance(40)) {  // an integer with a fraction
        auto n = static_cast<int>(s.range(0, 6));
        auto i = gen_int(s, near);
        unsigned __int128 u = i < 0 ? -static_cast<unsigned __int128>(i) : static_cast<unsigned __int128>(i);
        u = u * p10(static_cast<std::size_t>(n)) + (s.flip() ? static_cast<unsigned __int128>(s.range(0, static_cast<i64>(p10(static_cast<std::size_t>(n))) - 1)) : 0);
        return from_int(i < 0, u, n);
    }
    unsigned __int128 u = 0;
    for (char c : gen_digits(s, 38)) u = u * 10 + static_cast<unsigned>(c - '0');
    int e = static_cast<int>(s.chance(70) ? s.range(0, 38) : s.chance(90) ? s.range(-40, 60) : s.range(-24538, 24575));
    if (e < 0 && digits_of(u).size() + static_cast<std::size_t>(-e) > 24577) e = 0;
    if (static_cast<i64>(digits_of(u).size()) - 1 - e < -24575) e = 0;
    return from_int(s.flip(), u, e);
}

struct Lit {
    std::string s;
    std::optional<Num> v{};
    bool in_range = true;
};

std::string spaces(Src& s) { return s.chance(30) ? std::string(static_cast<std::size_t>(s.range(0, 3)), ' ') : ""; }

// a numeric literal
Lit gen_literal(Src& s, K near) {
    Lit l;
    std::string t;
    if (s.chance(30)) t = Num::of(gen_int(s, near)).lit();
    else if (s.chance(20)) {
        auto i = gen_int(s, near);
        t = (i < 0 ? "-" : s.chance(20) ? "+" : "") + digits_of(i < 0 ? -static_cast<unsigned __int128>(i) : static_cast<unsigned __int128>(i));
        if (s.flip()) t += "." + gen_digits(s, 5);
    } else {
        t = s.pick({"", "", "-", "+"});
        auto d = gen_digits(s, s.chance(70) ? 12 : 60);
        auto p = static_cast<std::size_t>(s.range(0, static_cast<i64>(d.size())));
        t += d.substr(0, p);
        if (p < d.size() || s.chance(10)) t += ".";
        t += d.substr(p);
        if (s.chance(40)) {
            t += s.flip() ? 'e' : 'E';
            t += s.pick({"", "-", "+"});
            t += std::to_string(s.chance(80) ? s.range(0, 45) : s.chance(80) ? s.range(24530, 24640) : s.range(0, 3000000));
        }
    }
    l.v = Num::parse(t);
    if (!l.v) { t = "0"; l.v = Num{}; }
    if (!l.v->zero()) l.in_range = l.v->top() - 1 >= -24575 && l.v->top() - 1 <= 24576;
    l.s = spaces(s) + t + spaces(s);
    return l;
}

V make(K k) { V v; v.k = k; return v; }
V of_string(std::string s) { auto v = make(K::character); v.s = std::move(s); return v; }

double gen_double(Src& s, K near) {
    switch (s.idx(4)) {
        case 0: return static_cast<double>(gen_int(s, near));
        case 1: return std::nextafter(static_cast<double>(gen_int(s, near)), s.flip() ? 1e300 : -1e300);
        case 2: return static_cast<double>(s.range(-40000, 40000)) / s.pick<double>({1, 2, 3, 10, 100, 128});
        default: return s.any_double();
    }
}

// a numeric source with its exact value
struct Source {
    Ty t{};
    V v{};
    std::optional<Num> n{};  // none: not a number at all
    bool cut = false;        // a literal of more digits than decimals have
};

std::optional<Source> gen_source(Src& s, K near, bool floats) {
    Source r;
    r.t.k = s.pick(floats ? std::vector<K>{K::int4, K::int8, K::int1, K::int2, K::decimal, K::character, K::float4, K::float8} : std::vector<K>{K::int4, K::int8, K::int1, K::int2, K::decimal, K::character});
    r.v = make(r.t.k);
    switch (r.t.k) {
        case K::float4: r.v.f = static_cast<float>(gen_double(s, near)); if (std::isfinite(r.v.f)) r.n = Num::of(static_cast<double>(r.v.f)); break;
        case K::float8: r.v.d = gen_double(s, near); if (std::isfinite(r.v.d)) r.n = Num::of(r.v.d); break;
        case K::decimal: r.v.t = gen_triple(s, near); r.n = Num::of(r.v.t); break;
        case K::character: {
            auto l = gen_literal(s, near);
            r.v.s = l.s;
            r.t.varying = s.flip();
            if (!r.t.varying) r.t.len = std::max<std::size_t>(1, l.s.size());
            if (l.in_range) {
                r.n = l.v;
                r.cut = l.v->d.size() > 38;
            }
            break;
        }
        default: {
            auto i = gen_int(s, near);
            if (i < imin(r.t.k) || i > imax(r.t.k)) i = s.range(-9, 9);
            r.v.i = static_cast<i64>(i);
            r.n = Num::of(i);
        }
    }
    return r;
}
bool is_float(K k) { return k == K::float4 || k == K::float8; }
double as_double(V const& v) { return v.k == K::float4 ? static_cast<double>(v.f) : v.d; }
}  // namespace

PBT_FACET(to_integers, "numbers and strings become integers", "the value does not fit, has a fraction or is no number", .quick = 60000) {
    config(true, true, true);
    Ty to;
    to.k = s.pick({K::int4, K::int8, K::int1, K::int2});
    auto src = *gen_source(s, to.k, true);
    Cast c;
    c.policy = gen_policy(s);
    run(s, c, src.t, src.v, to);
    s.label("from " + std::string(to_string_view(src.t.k)));
    if (is_float(src.t.k) && c.policy == P::implicit) {
        expect_error(c, error_kind::unsupported, "an approximate number does not become an exact one implicitly");
        return;
    }
    Num lo = Num::of(imin(to.k)), hi = Num::of(imax(to.k));
    Num want;
    bool lossy = true;
    if (!src.n) {
        s.nontrivial();
        if (is_float(src.t.k)) {
            if (std::isnan(as_double(src.v))) { expect_error(c, error_kind::arithmetic_error, "NaN is no integer"); return; }
            want = as_double(src.v) < 0 ? lo : hi;
        } else {
            PBT_CHECK(c.err().has_value(), c.out, " for an exponent out of range");
            return;
        }
    } else {
        want = src.n->trunc(0);
        if (Num::cmp(want, lo) < 0) want = lo;
        if (Num::cmp(want, hi) > 0) want = hi;
        lossy = !(want == *src.n);
    }
    if (lossy) s.nontrivial();
    if (!judge(c, lossy)) return;
    auto v = from_any(c.out, to.k);
    PBT_EQ(v.i, want.to_i64());
}

PBT_FACET(to_decimals, "numbers and strings become decimals", "the value does not fit, has too many fraction digits or is no number", .quick = 60000) {
    config(true, true, true);
    auto src = *gen_source(s, K::int8, true);
    Ty to;
    to.k = K::decimal;
    switch (s.idx(6)) {
        case 0: break;
        case 1: to.prec = s.range(1, 38); break;
        case 2: to.scale = s.range(0, 38); break;
        default: to.prec = s.range(1, 38); to.scale = s.range(0, static_cast<i64>(*to.prec)); break;
    }
    Cast c;
    c.policy = gen_policy(s);
    run(s, c, src.t, src.v, to);
    s.label("from " + std::string(to_string_view(src.t.k)));
    if (is_float(src.t.k) && c.policy == P::implicit) {
        expect_error(c, error_kind::unsupported, "an approximate number does not become an exact one implicitly");
        return;
    }
    if (is_float(src.t.k) && std::isnan(as_double(src.v))) {
        s.nontrivial();
        expect_error(c, error_kind::arithmetic_error, "NaN is no decimal");
        return;
    }
    if (src.t.k == K::character && !src.n) {
        s.nontrivial();
        PBT_CHECK(c.err().has_value(), c.out, " for an exponent out of range");
        return;
    }
    if (to.prec && !to.scale) {
        PBT_CHECK(c.out.error(), c.out, " for a decimal with a precision and no scale");
        return;
    }
    auto p = static_cast<i64>(to.prec.value_or(38)), sc = static_cast<i64>(to.scale.value_or(0));
    bool any_ps = !to.prec && !to.scale;
    auto most = Num::of(false, std::string(static_cast<std::size_t>(p), '9'), -sc);
    auto fit = [&](Num const& x) {
        if (any_ps) return x;
        auto r = x.top() > p - sc && !x.zero() ? most : x.trunc(sc);
        if (r == most) r.neg = x.neg;
        return r;
    };
    auto shape = [&](V const& v) {
        if (!any_ps) PBT_EQ(v.t.exponent(), static_cast<std::int32_t>(-sc), "the scale of the result");
        auto n = Num::of(v.t);
        PBT_CHECK(any_ps || n.zero() || n.top() <= p - sc, "the result ", n, " has more integral digits than the type");
        PBT_CHECK(n.d.size() <= 38, "the result ", n, " has more than 38 digits");
        return n;
    };
    if (is_float(src.t.k)) {
        auto x = as_double(src.v);
        if (std::isinf(x)) {
            s.nontrivial();
            if (!judge(c, true)) return;
            auto n = shape(from_any(c.out, K::decimal));
            PBT_EQ(n.neg, x < 0);
            if (!any_ps) { n.neg = false; PBT_CHECK(n == most, "infinity becomes ", n); }
            else PBT_CHECK(n.top() > 24000, "infinity becomes ", n);
            return;
        }
        // the conversion keeps six significant digits or more
        auto ax = Num::of(std::fabs(x));
        if (c.out.error() || c.out.empty()) {
            // lost precision: truncated fraction digits or too large for the type
            bool surely_fits = any_ps || (ax.top() < p - sc && (ax.zero() || (ax.e >= -sc && ax.d.size() <= 6)));
            PBT_CHECK(!surely_fits, c.out, " for ", x);
            judge(c, true);
            return;
        }
        auto n = shape(from_any(c.out, K::decimal));
        PBT_CHECK(n.zero() || n.neg == (x < 0), "the sign of ", n, " from ", x);
        n.neg = false;
        // |n - x| <= half a unit of the sixth digit, then fitted
        auto half = Num::of(false, "5", ax.top() - 7);
        auto sum = [&](Num a, Num const& b, bool minus) {  // exact a +- b with a >= b >= 0
            auto e = std::min(a.e, b.e);
            std::string x1 = a.d + std::string(static_cast<std::size_t>(a.zero() ? 0 : a.e - e), '0'), y1 = b.d + std::string(static_cast<std::size_t>(b.e - e), '0');
            auto w = std::max(x1.size(), y1.size()) + 1;
            x1.insert(0, w - x1.size(), '0');
            y1.insert(0, w - y1.size(), '0');
            int carry = 0;
            for (auto i = w; i-- > 0;) {
                int z = (x1[i] - '0') + (minus ? -(y1[i] - '0') : (y1[i] - '0')) + carry;
                carry = z < 0 ? -1 : z / 10;
                if (z < 0) z += 10;
                x1[i] = static_cast<char>('0' + z % 10);
            }
            return Num::of(false, x1, e);
        };
        if (ax.zero()) {
            PBT_CHECK(n.zero(), n, " from zero");
            return;
        }
        auto lo = fit(sum(ax, half, true)), hi = fit(sum(ax, half, false));
        PBT_CHECK(Num::cmp(lo, n) <= 0 && Num::cmp(n, hi) <= 0, n, " from ", ax, " is not between ", lo, " and ", hi);
        if (ax.d.size() <= 6) {
            PBT_CHECK(n == fit(ax), n, " from ", ax);
            bool lossy = !(n == ax);
            if (lossy) s.nontrivial();
            judge(c, lossy);
        } else if (!any_ps && lo == hi && lo.top() <= p - sc && ax.top() > p - sc + 1) judge(c, true);
        return;
    }
    auto x = src.n->first(38);
    auto want = fit(x);
    bool lossy = !(want == *src.n);
    if (lossy) s.nontrivial();
    if (!judge(c, lossy)) return;
    auto n = shape(from_any(c.out, K::decimal));
    PBT_CHECK(n == want, n, " expected ", want);
}

namespace {
template <class F>
void check_nearest(F f, Num const& x, std::string const& what) {
    // f is the float nearest to x, or what stands for overflow and underflow
    auto big = std::numeric_limits<F>::max(), tiny = std::numeric_limits<F>::min();
    auto ax = x;
    ax.neg = false;
    if (!x.zero() || f != 0) PBT_CHECK(std::signbit(f) == x.neg, what, ": ", f, " has the wrong sign");
    f = std::fabs(f);
    PBT_CHECK(!std::isnan(f), what);
    if (Num::cmp(ax, Num::of(static_cast<double>(tiny))) < 0) {  // underflow may give zero
        if (f == 0) return;
    }
    if (std::isinf(f)) {
        PBT_CHECK(Num::cmp(ax, Num::of(static_cast<double>(big))) > 0, what, ": infinity from ", x);
        return;
    }
    auto dn = f == 0 ? F{0} : std::nextafter(f, F{0}), up = std::nextafter(f, std::numeric_limits<F>::infinity());
    auto mid = [&](F a, F b) {
        if (std::isinf(b)) return Num::parse(sizeof(F) == 4 ? "340282356779733661637539395458142568448" : "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880177904174497792").value();
        long double m = (static_cast<long double>(a) + static_cast<long double>(b)) / 2;
        static char buf[1400];
        std::snprintf(buf, sizeof buf, "%.1100Le", m);
        return *Num::parse(buf);
    };
    if (f > 0) PBT_CHECK(Num::cmp(ax, mid(dn, f)) >= 0, what, ": ", show(f), " is not nearest to ", x);
    PBT_CHECK(Num::cmp(ax, mid(f, up)) <= 0, what, ": ", show(f), " is not nearest to ", x);
}
}  // namespace

PBT_FACET(to_floats, "numbers and strings become floats", "the value is not exact, overflows, underflows or is no finite number", .quick = 40000) {
    config(true, true, true);
    Ty to;
    to.k = s.pick({K::float4, K::float8});
    Cast c;
    c.policy = gen_policy(s);
    if (s.chance(15)) {  // spelled special values
        struct W { const char* t; double v; bool ok; };
        auto w = s.pick<W>({{"NaN", NAN, true}, {"+NaN", NAN, true}, {"-NaN", NAN, true}, {"Inf", INFINITY, true}, {"Infinity", INFINITY, true}, {"+Inf", INFINITY, true}, {"-Infinity", -INFINITY, true},
            {"-Inf", -INFINITY, true}, {"NaN1", 0, false}, {"sNaN", 0, false}, {"Infinit", 0, false}, {"1.2.3", 0, false}, {"", 0, false}, {"--1", 0, false}, {"1e", 0, false}, {"0x10", 0, false}, {"1 2", 0, false}, {".", 0, false}, {"e5", 0, false}});
        std::string t = w.t;
        for (auto& ch : t) if (s.flip()) ch = static_cast<char>(std::isupper(ch) ? std::tolower(ch) : std::toupper(ch));
        s.nontrivial();
        Ty from;
        from.k = K::character;
        run(s, c, from, of_string(spaces(s) + t + spaces(s)), to);
        if (!w.ok) { expect_error(c, error_kind::format_error, "not a number"); return; }
        PBT_CHECK(!c.out.error() && !c.out.empty(), c.out, " for ", t);
        auto d = as_double(from_any(c.out, to.k));
        PBT_CHECK(std::isnan(w.v) ? std::isnan(d) && !std::signbit(d) : d == w.v, d, " for ", t);
        return;
    }
    auto src = *gen_source(s, K::int8, true);
    run(s, c, src.t, src.v, to);
    s.label("from " + std::string(to_string_view(src.t.k)));
    if (!src.n && src.t.k == K::character) { s.nontrivial(); PBT_CHECK(c.err().has_value(), c.out, " for an exponent out of range"); return; }
    bool lossy = src.t.k == K::character && src.cut;
    if (!judge(c, lossy)) return;
    auto v = from_any(c.out, to.k);
    if (!src.n) {
        s.nontrivial();
        auto d = as_double(src.v), r = as_double(v);
        PBT_CHECK(std::isnan(d) ? std::isnan(r) && !std::signbit(r) : d == r, r, " from ", d);
        return;
    }
    if (is_float(src.t.k) && as_double(src.v) == 0) { PBT_CHECK(as_double(v) == 0 && std::signbit(as_double(v)) == std::signbit(as_double(src.v)), "the sign of zero"); return; }
    auto x = src.cut ? src.n->first(38) : *src.n;
    if (to.k == K::float4) check_nearest(v.f, x, "to float4");
    else check_nearest(v.d, x, "to float8");
    if (std::isinf(as_double(v)) || !(Num::of(as_double(v)) == x)) s.nontrivial();
}

namespace {
// n bytes of text at most, not ending within a character
std::string cut_text(std::string const& t, std::size_t n) {
    if (t.size() <= n) return t;
    while (n > 0 && (static_cast<unsigned char>(t[n]) & 0xC0U) == 0x80U) --n;
    return t.substr(0, n);
}
void check_length(Cast& c, std::string const& base, Ty const& to, bool lenient, bool may = false) {
    char pad = to.k == K::character ? ' ' : '\0';
    auto want = base;
    bool lossy = false;
    if (to.len) {
        if (base.size() > *to.len) {
            want = to.k == K::character ? cut_text(base, *to.len) : base.substr(0, *to.len);
            auto rest = base.substr(want.size());
            lossy = !lenient || rest.find_first_not_of(pad) != std::string::npos;
        }
        if (!to.varying) want.resize(*to.len, pad);
    }
    if (may) lossy = c.ctx.lost_precision();
    if (!judge(c, lossy, error_kind::lost_precision_value_too_long)) return;
    auto v = from_any(c.out, to.k);
    PBT_EQ(v.s, want);
    if (to.len && !to.varying) PBT_EQ(v.s.size(), *to.len, "the length of a fixed length string");
}
Ty gen_string_type(Src& s, K k, std::size_t around) {
    Ty t;
    t.k = k;
    t.varying = s.flip();
    if (!t.varying || s.chance(80)) t.len = static_cast<std::size_t>(std::max<i64>(1, static_cast<i64>(around) + s.range(-4, 6)));
    return t;
}
}  // namespace

PBT_FACET(to_strings, "values become character strings", "the string is truncated or padded", .quick = 60000) {
    config(true, true, true);
    Ty from;
    from.k = s.pick({K::character, K::boolean, K::int4, K::int8, K::int1, K::int2, K::decimal, K::float4, K::float8, K::octet});
    auto v = make(from.k);
    std::string base;
    bool lenient = false, may = false;
    switch (from.k) {
        case K::boolean: v.i = s.flip(); base = v.i ? "true" : "false"; break;
        case K::decimal: v.t = gen_triple(s, K::int8); break;
        case K::float4: v.f = static_cast<float>(gen_double(s, K::int8)); break;
        case K::float8: v.d = gen_double(s, K::int8); break;
        case K::character: {
            v.s = s.chance(60) ? s.utf8(8) : s.chars("ab ", 12);
            if (s.chance(40)) v.s += std::string(static_cast<std::size_t>(s.range(0, 6)), ' ');
            from.varying = s.flip();
            if (!from.varying) { if (v.s.empty()) v.s = " "; from.len = v.s.size(); lenient = true; }
            base = v.s;
            break;
        }
        case K::octet: {
            v.s = s.bytes(10);
            from.varying = s.flip();
            if (!from.varying) { if (v.s.empty()) v.s = "x"; from.len = v.s.size(); may = true; }
            static const char* h = "0123456789abcdef";
            for (unsigned char ch : v.s) { base += h[ch >> 4U]; base += h[ch & 15U]; }
            break;
        }
        default: {
            auto i = gen_int(s, from.k);
            if (i < imin(from.k) || i > imax(from.k)) i = s.range(-9, 9);
            v.i = static_cast<i64>(i);
            base = std::to_string(v.i);
        }
    }
    s.label("from " + std::string(to_string_view(from.k)));
    if (from.k == K::decimal || is_float(from.k)) {  // the whole string first
        Ty all;
        all.k = K::character;
        Cast c;
        run(s, c, from, v, all);
        PBT_CHECK(judge(c, false));
        base = from_any(c.out, K::character).s;
        if (from.k == K::decimal) {
            auto n = Num::parse(base);
            PBT_CHECK(n && *n == Num::of(v.t), base, " is not the value");
            auto dot = base.find('.');
            if (base.find('E') == std::string::npos && v.t.exponent() <= 0) PBT_EQ(dot == std::string::npos ? 0 : static_cast<std::int32_t>(base.size() - dot - 1), -v.t.exponent(), "the digits of the fraction");
        } else {
            auto x = as_double(v);
            if (std::isnan(x)) PBT_EQ(base, "NaN");
            else if (std::isinf(x)) PBT_EQ(base, x < 0 ? "-Infinity" : "Infinity");
            else {
                char* e = nullptr;
                auto y = std::strtod(base.c_str(), &e);
                PBT_CHECK(*e == '\0', base, " is not a number");
                PBT_CHECK(std::fabs(y - x) <= std::fabs(x) * 5.1e-6, base, " is not close to the value");
            }
        }
    }
    Ty to = gen_string_type(s, K::character, base.size());
    Cast c;
    c.policy = gen_policy(s);
    run(s, c, from, v, to);
    if (to.len && base.size() != *to.len) s.nontrivial();
    check_length(c, base, to, lenient, may && to.len && base.size() > *to.len && base.find_first_not_of('0', *to.len) == std::string::npos);
}

PBT_FACET(to_octets, "strings become octets", "the octets are truncated or padded, or the string is not hexadecimal", .quick = 30000) {
    config(true, true, true);
    Ty from;
    from.k = s.pick({K::octet, K::character});
    auto data = s.bytes(10);
    if (s.chance(40)) data += std::string(static_cast<std::size_t>(s.range(0, 6)), '\0');
    auto v = make(from.k);
    from.varying = s.flip();
    bool good = true, may = false;
    if (from.k == K::octet) v.s = data;
    else {
        for (unsigned char ch : data) {
            for (unsigned q : {ch / 16U, ch % 16U}) {
                char const* h = s.flip() ? "0123456789abcdef" : "0123456789ABCDEF";
                v.s += h[q];
            }
        }
        if (s.chance(15)) {
            good = false;
            if (s.flip() || v.s.empty()) v.s += s.pick({"0", "a", "F"});
            else v.s[s.idx(v.s.size())] = s.pick({'g', 'G', '/', ':', '@', '`', '\x80', '-'});
        }
        v.s = spaces(s) + v.s + spaces(s);
    }
    if (!from.varying) { if (v.s.empty()) { v.s = from.k == K::octet ? std::string{"x"} : "00"; data = from.k == K::octet ? std::string{"x"} : std::string(1, '\0'); } from.len = v.s.size(); }
    Ty to = gen_string_type(s, K::octet, data.size());
    if (from.k == K::character && !from.varying && to.len && data.size() > *to.len) may = data.find_first_not_of('\0', *to.len) == std::string::npos;
    Cast c;
    c.policy = gen_policy(s);
    run(s, c, from, v, to);
    if (!good || (to.len && data.size() != *to.len)) s.nontrivial();
    if (!good) { expect_error(c, error_kind::format_error, "not hexadecimal"); return; }
    check_length(c, data, to, from.k == K::octet && !from.varying, may);
}

PBT_FACET(to_booleans, "strings become booleans", "the string is not exactly true or false", .quick = 10000) {
    config(true, true, true);
    auto w = s.flip() ? std::string{"true"} : std::string{"false"};
    auto t = w.substr(0, static_cast<std::size_t>(s.range(0, static_cast<i64>(w.size()))));
    for (auto& ch : t) if (s.flip()) ch = static_cast<char>(std::toupper(ch));
    if (s.chance(30)) {
        auto p = s.idx(t.size() + 1);
        t.insert(p, 1, s.pick({'t', 'e', 'x', '1', '\xe3', 'A'}));
    }
    std::string low;
    for (char ch : t) low += static_cast<char>(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch);
    bool is_t = !low.empty() && std::string{"true"}.compare(0, low.size(), low) == 0, is_f = !low.empty() && std::string{"false"}.compare(0, low.size(), low) == 0;
    if (low != "true" && low != "false") s.nontrivial();
    Ty from, to;
    from.k = K::character;
    to.k = K::boolean;
    Cast c;
    c.policy = gen_policy(s);
    run(s, c, from, of_string(spaces(s) + t + spaces(s)), to);
    if (!is_t && !is_f) { expect_error(c, error_kind::format_error, "not a boolean"); return; }
    PBT_CHECK(judge(c, false));
    PBT_EQ(from_any(c.out, K::boolean).i, is_t ? 1 : 0);
}

namespace {
i64 days_from_civil(i64 y, unsigned m, unsigned d) {
    i64 n = 0;
    auto leap = [](i64 k) { return k % 4 == 0 && (k % 100 != 0 || k % 400 == 0); };
    // whole cycles of 400 years, then year by year
    n += (y - 1970) / 400 * 146097;
    i64 k = 1970 + (y - 1970) / 400 * 400;
    for (; k < y; ++k) n += leap(k) ? 366 : 365;
    for (; k > y; --k) n -= leap(k - 1) ? 366 : 365;
    static const unsigned days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    for (unsigned i = 1; i < m; ++i) n += days[i - 1] + (i == 2 && leap(y) ? 1 : 0);
    return n + d - 1;
}
std::string two(i64 v) { return (v < 10 ? "0" : "") + std::to_string(v); }
}  // namespace

PBT_FACET(to_temporals, "strings become dates, times and timestamps", "the timestamp has a time zone, or the string is not well formed", .quick = 20000) {
    auto zone = static_cast<int>(s.range(-24 * 60, 24 * 60));
    config(true, true, true, zone);
    auto y = s.chance(70) ? s.range(1900, 2100) : s.range(1, 9999);
    auto m = static_cast<unsigned>(s.range(1, 12)), d = static_cast<unsigned>(s.range(1, 28));
    auto hh = s.range(0, 23), mm = s.range(0, 59), ss = s.range(0, 59);
    auto fd = static_cast<int>(s.range(0, 9));
    i64 ns = 0;
    std::string frac;
    for (int i = 0; i < fd; ++i) { auto x = s.range(0, 9); frac += static_cast<char>('0' + x); ns = ns * 10 + x; }
    for (int i = fd; i < 9; ++i) ns *= 10;
    auto ys = std::to_string(y);
    auto date = std::string(ys.size() < 4 ? 4 - ys.size() : 0, '0') + ys + "-" + two(m) + "-" + two(d);
    auto time = two(hh) + ":" + two(mm) + ":" + two(ss) + (fd ? "." + frac : "");
    auto day = days_from_civil(y, m, d);
    Ty from, to;
    from.k = K::character;
    to.k = s.pick({K::date, K::time_of_day, K::time_point});
    to.off = to.k == K::time_point && s.flip();
    V want = make(to.k);
    std::string t;
    bool good = true;
    if (to.k == K::date) { t = date; want.i = day; }
    else if (to.k == K::time_of_day) { t = time; want.i = ((hh * 60 + mm) * 60 + ss) * 1000000000LL + ns; }
    else {
        bool with_time = s.chance(90);
        t = date + (with_time ? " " + time : "");
        want.i = day * 86400 + (with_time ? (hh * 60 + mm) * 60 + ss : 0);
        want.n = static_cast<std::int32_t>(with_time ? ns : 0);
        if (with_time && s.chance(50)) {
            auto oh = s.range(0, 23), om = s.range(0, 59);
            bool plus = s.flip();
            if (s.chance(20)) { t += "Z"; oh = om = 0; }
            else t += (plus ? "+" : "-") + two(oh) + ":" + two(om);
            if (!to.off) good = false;
            want.i -= (plus ? 1 : -1) * (oh * 60 + om) * 60;
            s.nontrivial();
        } else if (to.off) { want.i -= zone * 60; s.nontrivial(); }
    }
    if (s.chance(15)) {
        good = false;
        s.nontrivial();
        switch (s.idx(4)) {
            case 0: t += "x"; break;
            case 1: t = "x" + t; break;
            case 2: t = ""; break;
            default: t = to.k == K::time_of_day ? date : time; break;
        }
    }
    Cast c;
    c.policy = gen_policy(s);
    run(s, c, from, of_string(spaces(s) + t + spaces(s)), to);
    if (!good) { expect_error(c, error_kind::format_error, "not well formed for the type"); return; }
    PBT_CHECK(judge(c, false));
    auto v = from_any(c.out, to.k);
    PBT_CHECK(same(v, want), v, " expected ", want, " zone ", zone);
}

PBT_FACET(matrix, "which types convert to which, null values and gated types", "the pair is not supported, gated, or the value is null", .quick = 30000) {
    bool small = s.flip(), boolean = s.flip(), lob = s.flip();
    config(small, boolean, lob);
    auto from = gen_type(s), to = gen_type(s);
    if (from.k == K::character && from.len) from.len = 60;
    auto v = gen_value(s, from);
    if (from.k == K::character && !from.varying && from.len) v.s.resize(*from.len, ' ');
    if (from.k == K::blob || from.k == K::clob) { lobs.clear(); lobs[static_cast<u64>(v.i)] = "abc"; }
    lob_fault = 0;
    v.null = s.chance(30);
    bool unknown = s.chance(5);
    if (unknown) { from.k = K::unknown; v.null = true; }
    Cast c;
    c.policy = gen_policy(s);
    auto ints = [](K k) { return k == K::int1 || k == K::int2 || k == K::int4 || k == K::int8; };
    auto num = [&](K k) { return ints(k) || is_float(k) || k == K::decimal; };
    auto ok = [&](K a, K b) {
        if (num(a)) return num(b) || b == K::character;
        switch (a) {
            case K::boolean: return b == K::boolean || b == K::character;
            case K::character: return b != K::blob;
            case K::octet: return b == K::octet || b == K::character || b == K::blob;
            case K::blob: return b == K::blob || b == K::octet;
            case K::clob: return b == K::clob || b == K::character;
            default: return false;
        }
    };
    auto is = [&](std::initializer_list<K> ks) { for (auto k : ks) if (from.k == k || to.k == k) return true; return false; };
    // a type that is not enabled is not reachable by any cast
    bool gated = !unknown && (is({K::boolean}) ? !boolean : is({K::int1, K::int2}) ? !small : is({K::blob, K::clob}) ? !lob : false);
    bool approx = is_float(from.k) && (ints(to.k) || to.k == K::decimal) && c.policy == P::implicit;
    run(s, c, from, v, to);
    if (v.null || gated || !ok(from.k, to.k)) s.nontrivial();
    s.label(gated ? "gated" : approx ? "implicit" : v.null ? "null" : ok(from.k, to.k) ? "supported" : "unsupported");
    if (gated || approx) { expect_error(c, error_kind::unsupported, "the types are not available"); return; }
    if (v.null) {
        PBT_CHECK(c.out.empty() || (!ok(from.k, to.k) && c.err() == error_kind::unsupported), c.out, " for a null value");
        PBT_CHECK(!c.ctx.lost_precision());
        return;
    }
    if (!ok(from.k, to.k)) { expect_error(c, error_kind::unsupported, "there is no such conversion"); return; }
    if (c.out.error()) {
        auto e = *c.err();
        PBT_CHECK(e == error_kind::format_error || e == error_kind::arithmetic_error || c.ctx.lost_precision(), c.out, " for a supported conversion");
        PBT_CHECK(from.k == K::character || e != error_kind::format_error, c.out, " for a value that is not a string");
        return;
    }
    from_any(c.out, to.k);
}

PBT_FACET(large_objects, "strings become large objects and return", "the content is truncated, too long, or the data store fails", .quick = 4000) {
    config(true, true, true);
    lobs.clear();
    lob_fault = 0;
    bool clob = s.flip();
    Ty str, lob;
    str.k = clob ? K::character : K::octet;
    lob.k = clob ? K::clob : K::blob;
    constexpr std::size_t limit = 2UL * 1024UL * 1024UL - 20UL;
    std::string content = clob ? s.utf8(12) : s.bytes(16);
    if (s.chance(3)) { content = std::string(limit + static_cast<std::size_t>(s.range(-1, 2)), 'a'); content[0] = 'b'; }
    if (s.chance(20)) lob_fault = static_cast<int>(s.range(1, 3));
    auto v = make(str.k);
    v.s = content;
    Cast up;
    up.policy = gen_policy(s);
    run(s, up, str, v, lob);
    auto failed = [&](Cast& c, jogasaki::error_code code) {
        s.nontrivial();
        PBT_CHECK(c.err() == error_kind::error_info_provided, c.out, " for a failure of the data store");
        PBT_CHECK(c.ctx.get_error_info() != nullptr && c.ctx.get_error_info()->code() == code, "the failure is not described");
    };
    if (lob_fault == 1) { failed(up, jogasaki::error_code::lob_file_io_error); return; }
    PBT_CHECK(judge(up, false));
    auto id = from_any(up.out, lob.k);
    PBT_EQ(lobs.at(static_cast<u64>(id.i)), content);
    Ty to = gen_string_type(s, str.k, std::min<std::size_t>(content.size(), 40));
    Cast back;
    back.policy = gen_policy(s);
    run(s, back, lob, id, to);
    if (lob_fault != 0) { failed(back, jogasaki::error_code::lob_file_io_error); return; }
    if (content.size() > limit) { failed(back, jogasaki::error_code::value_too_long_exception); return; }
    if (to.len && content.size() != *to.len) s.nontrivial();
    check_length(back, content, to, false);
}
