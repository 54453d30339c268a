// Choice-sequence property-based testing engine.
//
// A property ("facet") is a function drawing every decision from a Src. In generation mode the Src is
// fed by a PRNG that is a pure function of (seed, facet, case index); every drawn value is recorded, so
// a case is fully described by its choice sequence. Shrinking edits that sequence; a replay file is
// nothing but the sequence. The same entry point is fed by libFuzzer (bytes -> choices) in fuzz builds.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <cstring>
#include <exception>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace pbt {

using u64 = std::uint64_t;
using i64 = std::int64_t;

struct Fail : std::exception {
    std::string msg;
    explicit Fail(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};  // precondition not met; counted, never a failure

inline void cat_(std::ostream&) {}
template <class T, class... R>
void cat_(std::ostream& os, T const& t, R const&... r) {
    os << t;
    cat_(os, r...);
}
template <class... A>
std::string cat(A const&... a) {
    std::ostringstream os;
    cat_(os, a...);
    return os.str();
}

[[noreturn]] void fail_(const char* file, int line, const char* cond, std::string const& extra);

inline thread_local unsigned long long checks_done = 0;  // oracle comparisons made on this thread
#define PBT_CHECK(cond, ...)                                                            \
    do {                                                                                \
        ++::pbt::checks_done;                                                           \
        if (!(cond)) ::pbt::fail_(__FILE__, __LINE__, #cond, ::pbt::cat(__VA_ARGS__)); \
    } while (0)
#define PBT_EQ(a, b, ...)                                                                        \
    do {                                                                                         \
        ++::pbt::checks_done;                                                                    \
        auto&& pbt_a_ = (a);                                                                     \
        auto&& pbt_b_ = (b);                                                                     \
        if (!(pbt_a_ == pbt_b_))                                                                 \
            ::pbt::fail_(__FILE__, __LINE__, #a " == " #b,                                       \
                ::pbt::cat("got ", ::pbt::show(pbt_a_), " expected ", ::pbt::show(pbt_b_), " ", ##__VA_ARGS__)); \
    } while (0)

std::string hex(std::string_view s);      // printable-escaped rendering
template <class T, class = void>
struct requires_stream_v : std::false_type {};
template <class T>
struct requires_stream_v<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<T const&>())>> : std::true_type {};
template <class T>
std::string show(T const& t) {
    if constexpr (std::is_convertible_v<T const&, std::string_view>) {
        return "\"" + hex(std::string_view(t)) + "\"";
    } else if constexpr (std::is_same_v<T, bool>) {
        return t ? "true" : "false";
    } else if constexpr (std::is_enum_v<T>) {
        return std::to_string(static_cast<long long>(t));
    } else if constexpr (std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char> || std::is_same_v<T, char>) {
        return std::to_string(static_cast<int>(t));
    } else if constexpr (std::is_arithmetic_v<T>) {
        std::ostringstream os;
        os << std::setprecision(17) << t;
        return os.str();
    } else if constexpr (requires_stream_v<T>::value) {
        std::ostringstream os;
        os << t;
        return os.str();
    } else {
        return "<value>";
    }
}

class Src {
public:
    enum class Mode { random, replay, bytes };

    // ---- raw draw: uniform in [0,max] (inclusive); 0 is the simplest value ----
    u64 draw(u64 max);

    // ---- derived generators ----
    i64 range(i64 lo, i64 hi) {  // uniform, shrinks towards lo
        return static_cast<i64>(static_cast<u64>(lo) + draw(static_cast<u64>(hi) - static_cast<u64>(lo)));
    }
    std::size_t idx(std::size_t n) { return static_cast<std::size_t>(draw(n - 1)); }
    bool flip() { return draw(1) == 1; }
    bool chance(int percent) { return draw(99) >= static_cast<u64>(100 - percent); }  // shrinks to false
    template <class T>
    T const& pick(std::vector<T> const& v) { return v[idx(v.size())]; }
    template <class T>
    T pick(std::initializer_list<T> v) { return *(v.begin() + idx(v.size())); }
    // size in [0,max], mostly small, sometimes near boundaries/maximum
    std::size_t size(std::size_t max);
    // case "size" hint 0..100, grows over a run
    int scale() const { return scale_; }
    // integers biased to interesting points
    i64 integer(i64 lo, i64 hi);
    template <class I>
    I any_int() { return static_cast<I>(integer(std::numeric_limits<I>::min(), std::numeric_limits<I>::max())); }
    u64 any_u64() { return static_cast<u64>(integer(std::numeric_limits<i64>::min(), std::numeric_limits<i64>::max())); }
    double any_double(bool special = true);
    float any_float(bool special = true);
    std::string bytes(std::size_t maxlen);                      // arbitrary bytes, biased
    std::string chars(std::string_view alphabet, std::size_t maxlen);
    std::string utf8(std::size_t max_code_points);              // well-formed UTF-8, mixed widths
    std::string code_point();                                   // one well-formed UTF-8 char

    // ---- bookkeeping ----
    void label(std::string const& l) { labels_[l]++; }
    void nontrivial() { nontrivial_ = true; }
    void require(bool c) { if (!c) throw Discard{}; }
    bool verbose() const { return verbose_; }
    template <class... A>
    void note(A const&... a) {
        if (live_) { std::ofstream o{live_, std::ios::app}; cat_(o, a...); o << std::endl; }
        if (verbose_) { cat_(notes_, a...); notes_ << '\n'; }
    }
    char const* live_ = std::getenv("PBT_LIVE");  // a file that gets the notes as they are made, for a case that hangs
    u64 ops = 0;  // property-specific count of evaluated oracle comparisons

    // ---- engine side ----
    Mode mode_ = Mode::random;
    u64 state_ = 0;
    std::vector<u64> in_;           // replay input
    std::size_t pos_ = 0;
    const std::uint8_t* data_ = nullptr;
    std::size_t data_size_ = 0;
    std::vector<u64> rec_;          // recorded choices
    u64* shm_rec_ = nullptr;        // mirror for crash attribution: [0]=count
    std::size_t shm_cap_ = 0;
    int scale_ = 0;
    bool verbose_ = false;
    bool nontrivial_ = false;
    std::map<std::string, u64> labels_{};
    std::ostringstream notes_{};
    u64 next_rng() {
        u64 z = (state_ += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    void start(int scale);
};

struct Options {
    u64 quick = 20000;          // cases in the quick tier
    u64 thorough = 0;           // 0: 20x quick
    double hang_s = 20;         // a single case running longer is a hang
    bool nondet = false;        // depends on thread schedule: sound oracle, replay tries many times
    bool fuzz = true;           // usable as libFuzzer target
    int workers = 8;
};

struct Facet {
    std::string name;
    std::string rule;  // what counts as non-trivial
    Options opt;
    std::function<void(Src&)> fn;
};

std::vector<Facet>& facets();

struct Reg {
    Reg(const char* name, const char* rule, Options opt, std::function<void(Src&)> fn) {
        facets().push_back(Facet{name, rule, opt, std::move(fn)});
    }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_FACET(id, name, rule, ...)                                               \
    static void id(::pbt::Src& s);                                                    \
    static ::pbt::Reg PBT_CAT(reg_, id){name, rule, ::pbt::Options{__VA_ARGS__}, id}; \
    static void id(::pbt::Src& s)

// expects fn to throw something derived from E
template <class E, class F>
bool throws(F&& f) {
    try {
        f();
    } catch (E const&) {
        return true;
    }
    return false;
}

}  // namespace pbt
