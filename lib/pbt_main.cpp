#include "pbt.h"

#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>

namespace pbt {

std::vector<Facet>& facets() {
    static std::vector<Facet> v;
    return v;
}

std::string hex(std::string_view s) {
    std::ostringstream os;
    std::size_t n = 0;
    for (unsigned char c : s) {
        if (++n > 200) {
            os << "...(" << s.size() << " bytes)";
            break;
        }
        if (c >= 0x20 && c < 0x7f && c != '\\' && c != '"') {
            os << c;
        } else {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            os << b;
        }
    }
    return os.str();
}

void fail_(const char* file, int line, const char* cond, std::string const& extra) {
    const char* base = std::strrchr(file, '/');
    throw Fail(cat(base ? base + 1 : file, ":", line, ": ", cond, extra.empty() ? "" : " -- ", extra));
}

void Src::start(int scale) {
    // the size hint is itself a recorded choice, so that replay is self-contained
    if (mode_ == Mode::random) {
        scale_ = scale;
        rec_.push_back(static_cast<u64>(scale));
        if (shm_rec_ && rec_.size() < shm_cap_) {
            shm_rec_[rec_.size()] = rec_.back();
            shm_rec_[0] = rec_.size();
        }
    } else {
        scale_ = static_cast<int>(draw(100));
    }
}

u64 Src::draw(u64 max) {
    u64 v = 0;
    if (max != 0) {
        switch (mode_) {
            case Mode::random: {
                u64 r = next_rng();
                if (max == ~0ULL) {
                    v = r;
                } else {
                    v = static_cast<u64>((static_cast<unsigned __int128>(r) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
                }
                break;
            }
            case Mode::replay:
                v = pos_ < in_.size() ? in_[pos_++] : 0;
                if (v > max) v = max == ~0ULL ? v : v % (max + 1);
                break;
            case Mode::bytes: {
                int nb = 1;
                while (nb < 8 && (max >> (8 * nb)) != 0) nb++;
                for (int i = 0; i < nb; ++i) {
                    u64 b = pos_ < data_size_ ? data_[pos_++] : 0;
                    v |= b << (8 * i);
                }
                if (max != ~0ULL) v %= max + 1;
                break;
            }
        }
    } else if (mode_ == Mode::replay && pos_ < in_.size()) {
        pos_++;  // keep alignment: every draw records exactly one choice
    }
    rec_.push_back(v);
    if (shm_rec_ && rec_.size() < shm_cap_) {
        shm_rec_[rec_.size()] = v;
        shm_rec_[0] = rec_.size();
    }
    return v;
}

std::size_t Src::size(std::size_t max) {
    if (max == 0) return 0;
    switch (draw(7)) {
        case 0:
        case 1: return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 3)));
        case 2:
        case 3:
        case 4: return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 12)));
        case 5: return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 40)));
        case 6: return max - static_cast<std::size_t>(draw(std::min<std::size_t>(max, 3)));
        default: return static_cast<std::size_t>(draw(max));
    }
}

i64 Src::integer(i64 lo, i64 hi) {
    auto clamp = [&](__int128 v) -> i64 {
        if (v < lo) return lo;
        if (v > hi) return hi;
        return static_cast<i64>(v);
    };
    switch (draw(7)) {
        case 0:
        case 1: return clamp(static_cast<__int128>(range(0, 20)) - (flip() ? 10 : 0));
        case 2: return clamp(static_cast<__int128>(hi) - range(0, 3));
        case 3: return clamp(static_cast<__int128>(lo) + range(0, 3));
        case 4: {  // around +/- powers of two
            int b = static_cast<int>(range(0, 63));
            __int128 v = (static_cast<__int128>(1) << b) + range(-2, 2);
            return clamp(flip() ? -v : v);
        }
        case 5: {  // around +/- powers of ten
            int b = static_cast<int>(range(0, 18));
            __int128 v = 1;
            while (b-- > 0) v *= 10;
            v += range(-2, 2);
            return clamp(flip() ? -v : v);
        }
        case 6: {  // uniform bit length
            int b = static_cast<int>(range(0, 63));
            __int128 v = static_cast<__int128>(draw(b == 63 ? ~0ULL >> 1 : ((1ULL << (b + 1)) - 1)));
            return clamp(flip() ? -v : v);
        }
        default: return range(lo, hi);
    }
}

double Src::any_double(bool special) {
    switch (draw(special ? 9 : 6)) {
        case 0: return static_cast<double>(range(-10, 10));
        case 1: return static_cast<double>(range(-1000, 1000)) / 8.0;
        case 2: return static_cast<double>(integer(std::numeric_limits<i64>::min(), std::numeric_limits<i64>::max()));
        case 3: return static_cast<double>(integer(std::numeric_limits<std::int32_t>::min(), std::numeric_limits<std::int32_t>::max())) + static_cast<double>(range(-2, 2)) / 2.0;
        case 4: return static_cast<double>(range(-100000, 100000)) / 1000.0;
        case 5: return std::ldexp(static_cast<double>(range(-(1LL << 53), 1LL << 53)), static_cast<int>(range(-200, 200)));
        case 6: return flip() ? 0.0 : -0.0;
        case 7: {
            double v = 0;
            u64 b = draw(~0ULL);
            std::memcpy(&v, &b, sizeof v);
            return v;
        }
        case 8:
            return pick<double>({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(),
                std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min()});
        default: return static_cast<double>(any_float(false));
    }
}

float Src::any_float(bool special) {
    switch (draw(special ? 6 : 3)) {
        case 0: return static_cast<float>(range(-10, 10));
        case 1: return static_cast<float>(range(-1000, 1000)) / 8.0F;
        case 2: return static_cast<float>(range(-100000, 100000)) / 1000.0F;
        case 3: return static_cast<float>(std::ldexp(static_cast<double>(range(-(1LL << 24), 1LL << 24)), static_cast<int>(range(-60, 60))));
        case 4: return flip() ? 0.0F : -0.0F;
        case 5: {
            float v = 0;
            auto b = static_cast<std::uint32_t>(draw(0xFFFFFFFFULL));
            std::memcpy(&v, &b, sizeof v);
            return v;
        }
        default:
            return pick<float>({std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(),
                std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::max(), std::numeric_limits<float>::lowest(),
                std::numeric_limits<float>::min(), std::numeric_limits<float>::denorm_min()});
    }
}

std::string Src::bytes(std::size_t maxlen) {
    std::size_t n = size(maxlen);
    std::string r;
    r.reserve(n);
    int style = static_cast<int>(draw(3));
    for (std::size_t i = 0; i < n; ++i) {
        switch (style) {
            case 0: r.push_back(static_cast<char>('a' + draw(3))); break;
            case 1: r.push_back(pick<char>({'\0', '\x01', '\x7f', '\x80', '\xff', '\xfe', 'a', ' '})); break;
            case 2: r.push_back(static_cast<char>(draw(255))); break;
            default: r.push_back(static_cast<char>(0x20 + draw(0x5e))); break;
        }
    }
    return r;
}

std::string Src::chars(std::string_view alphabet, std::size_t maxlen) {
    std::size_t n = size(maxlen);
    std::string r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(alphabet[idx(alphabet.size())]);
    return r;
}

static std::string enc(std::uint32_t c) {
    std::string r;
    if (c < 0x80) {
        r.push_back(static_cast<char>(c));
    } else if (c < 0x800) {
        r.push_back(static_cast<char>(0xC0 | (c >> 6)));
        r.push_back(static_cast<char>(0x80 | (c & 0x3F)));
    } else if (c < 0x10000) {
        r.push_back(static_cast<char>(0xE0 | (c >> 12)));
        r.push_back(static_cast<char>(0x80 | ((c >> 6) & 0x3F)));
        r.push_back(static_cast<char>(0x80 | (c & 0x3F)));
    } else {
        r.push_back(static_cast<char>(0xF0 | (c >> 18)));
        r.push_back(static_cast<char>(0x80 | ((c >> 12) & 0x3F)));
        r.push_back(static_cast<char>(0x80 | ((c >> 6) & 0x3F)));
        r.push_back(static_cast<char>(0x80 | (c & 0x3F)));
    }
    return r;
}

std::string Src::code_point() {
    switch (draw(7)) {
        case 0:
        case 1: return enc(static_cast<std::uint32_t>(range('a', 'd')));
        case 2: return enc(static_cast<std::uint32_t>(range(0x20, 0x7e)));
        case 3: return enc(pick<std::uint32_t>({0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0x7f, 0xa0, 0xfffd}));
        case 4: return enc(static_cast<std::uint32_t>(range(0x80, 0x7ff)));
        case 5: {
            auto c = static_cast<std::uint32_t>(range(0x800, 0xffff));
            if (c >= 0xd800 && c < 0xe000) c = 0x3042;
            return enc(c);
        }
        case 6: return enc(static_cast<std::uint32_t>(range(0x10000, 0x10ffff)));
        default: return enc(static_cast<std::uint32_t>(range(0, 0x1f)));
    }
}

std::string Src::utf8(std::size_t max_cp) {
    std::size_t n = size(max_cp);
    std::string r;
    for (std::size_t i = 0; i < n; ++i) r += code_point();
    return r;
}

// ------------------------------------------------------------------------------------------------

static u64 fnv(std::string_view s, u64 h = 1469598103934665603ULL) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}
static u64 hash_choices(std::vector<u64> const& v) {
    u64 h = 1469598103934665603ULL;
    for (std::size_t i = 1; i < v.size(); ++i) h = (h ^ (v[i] + 0x9E3779B97F4A7C15ULL + (h << 6))) * 1099511628211ULL;
    return h;
}
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string json(std::string_view s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c == '\n') {
            r += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

// runs one case; returns empty on success, message on failure
static std::string run_case(Facet const& f, Src& s, int scale, bool& discarded) {
    discarded = false;
    try {
        s.start(scale);
        f.fn(s);
    } catch (Discard const&) {
        discarded = true;
    } catch (Fail const& e) {
        return e.msg.empty() ? "check failed" : e.msg;
    } catch (std::exception const& e) {
        return cat("unexpected exception: ", e.what());
    } catch (...) {
        return "unexpected exception of unknown type";
    }
    return {};
}

#ifndef PBT_FUZZ

constexpr std::size_t rec_cap = 1U << 20U;
constexpr std::size_t msg_cap = 1U << 14U;

struct Shm {
    std::atomic<u64> case_no;   // current case + 1
    std::atomic<double> start;
    std::atomic<u64> done;
    std::atomic<u64> failed;    // case + 1
    char msg[msg_cap];
    char notes[msg_cap];
    u64 rec[rec_cap];
};

template <class T>
static T* shared(std::size_t n = 1) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::_Exit(3);
    }
    return static_cast<T*>(p);
}

static std::string workdir;

static void redirect(std::string const& path) {
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
        dup2(fd, 2);
        dup2(fd, 1);
        close(fd);
    }
}

static std::string tail(std::string const& path, std::size_t n) {
    std::ifstream is(path);
    std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    // the interesting part of a sanitizer report is its head
    auto p = s.find("ERROR: ");
    if (p == std::string::npos) p = s.find("runtime error");
    if (p == std::string::npos) p = s.size() > n ? s.size() - n : 0;
    else if (p > 200) p -= 200; else p = 0;
    return s.substr(p, n);
}

struct Outcome {
    bool failed = false;
    bool discarded = false;
    std::string msg;
    std::string notes;
    std::vector<u64> rec;
};

// run one case in a forked child, from choices or from the generator
static Outcome run_forked(Facet const& f, std::vector<u64> const* choices, u64 rng, int scale, double timeout, bool verbose, std::string const* bytes = nullptr) {
    static Shm* shm = shared<Shm>();
    shm->failed = 0;
    shm->done = 0;
    shm->msg[0] = 0;
    shm->notes[0] = 0;
    shm->rec[0] = 0;
    std::string log = workdir + "/child.log";
    pid_t pid = fork();
    if (pid == 0) {
        redirect(log);
        Src s;
        s.shm_rec_ = shm->rec;
        s.shm_cap_ = rec_cap;
        s.verbose_ = verbose;
        if (bytes) {
            s.mode_ = Src::Mode::bytes;
            s.data_ = reinterpret_cast<std::uint8_t const*>(bytes->data());
            s.data_size_ = bytes->size();
        } else if (choices) {
            s.mode_ = Src::Mode::replay;
            s.in_ = *choices;
        } else {
            s.state_ = rng;
        }
        bool disc = false;
        auto m = run_case(f, s, scale, disc);
        auto put = [](char* dst, std::string const& t) {
            auto n = std::min(t.size(), msg_cap - 1);
            std::memcpy(dst, t.data(), n);
            dst[n] = 0;
        };
        put(shm->msg, m);
        put(shm->notes, s.notes_.str());
        shm->failed = m.empty() ? 0 : 1;
        shm->done = disc ? 2 : 1;
        std::_Exit(0);
    }
    Outcome o;
    double t0 = now();
    int st = 0;
    bool hung = false;
    useconds_t nap = 200;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > timeout) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hung = true;
            break;
        }
        usleep(nap);
        if (nap < 5000) nap = nap * 3 / 2;
    }
    o.notes = shm->notes;
    o.rec.assign(shm->rec + 1, shm->rec + 1 + std::min<u64>(shm->rec[0], rec_cap - 1));
    if (hung) {
        o.failed = true;
        o.msg = cat("no progress for ", timeout, " s in a single case (hang)");
    } else if (shm->done != 0) {
        o.failed = shm->failed != 0;
        o.discarded = shm->done == 2;
        o.msg = shm->msg;
    } else {
        o.failed = true;
        o.msg = cat("process died (", WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) : cat("exit ", WEXITSTATUS(st)), "): ", tail(log, 3000));
    }
    return o;
}

static std::vector<u64> shrink(Facet const& f, std::vector<u64> best, double budget_s, double timeout, u64& attempts) {
    double t0 = now();
    auto ok = [&](std::vector<u64> const& c) {
        attempts++;
        auto o = run_forked(f, &c, 0, 0, timeout, false);
        if (o.failed) {
            auto r = o.rec.size() < c.size() ? o.rec : c;
            // drop unread tail
            best = r;
            while (best.size() > 1 && best.back() == 0) best.pop_back();
            return true;
        }
        return false;
    };
    auto time_left = [&] { return now() - t0 < budget_s; };
    bool progress = true;
    while (progress && time_left()) {
        progress = false;
        // delete chunks
        for (std::size_t len = std::max<std::size_t>(best.size() / 2, 1); len >= 1 && time_left(); len /= 2) {
            for (std::size_t i = 0; i + len <= best.size() && time_left();) {
                auto c = best;
                c.erase(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + len));
                if (ok(c)) {
                    progress = true;
                } else {
                    i += len;
                }
            }
            if (len == 1) break;
        }
        // zero chunks
        for (std::size_t len : {8, 4, 2, 1}) {
            for (std::size_t i = 0; i + len <= best.size() && time_left(); i += len) {
                auto c = best;
                bool any = false;
                for (std::size_t j = i; j < i + len; ++j) {
                    any = any || c[j] != 0;
                    c[j] = 0;
                }
                if (any && ok(c)) progress = true;
            }
        }
        // minimise values
        for (std::size_t i = 0; i < best.size() && time_left(); ++i) {
            u64 lo = 0;
            while (i < best.size() && lo < best[i] && time_left()) {
                u64 mid = lo + (best[i] - lo) / 2;
                auto c = best;
                c[i] = mid;
                if (ok(c)) {
                    progress = true;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    return best;
}

struct Stats {
    u64 cases = 0;
    u64 discarded = 0;
    u64 nontrivial = 0;
    u64 ops = 0;
    std::map<std::string, u64> labels;
    std::vector<std::string> samples;
    u64 distinct_nontrivial = 0;
    double wall = 0;
    bool capped = false;
    u64 planned = 0;
};

static u64 case_rng(u64 seed, Facet const& f, u64 i) {
    Src t;
    t.state_ = seed * 0x9E3779B97F4A7C15ULL ^ fnv(f.name) ^ (i * 0xD1342543DE82EF95ULL);
    t.next_rng();
    return t.next_rng();
}
static int case_scale(u64 i, u64 n) {
    // sizes cycle, so that truncated runs still see every size
    (void)n;
    return static_cast<int>((i * 37) % 101);
}

static void worker(Facet const& f, u64 seed, u64 w, u64 nw, u64 n, u64 first, double deadline, Shm* shm, std::string const& out) {
    Stats st;
    std::unordered_set<u64> seen;
    u64 count = 0;
    u64 per = n / nw + 1;
    for (u64 i = first; i < n; i += nw, ++count) {
        if (now() > deadline) {
            st.capped = true;
            break;
        }
        shm->start = now();
        shm->case_no = i + 1;
        Src s;
        s.state_ = case_rng(seed, f, i);
        bool sample = w == 0 && st.samples.size() < 3 && count >= per * (st.samples.size() * 3 + 1) / 10;
        s.verbose_ = sample;
        bool disc = false;
        auto m = run_case(f, s, case_scale(i, n), disc);
        if (!m.empty()) {
            auto k = std::min(m.size(), msg_cap - 1);
            std::memcpy(shm->msg, m.data(), k);
            shm->msg[k] = 0;
            auto k2 = std::min<std::size_t>(s.rec_.size(), rec_cap - 1);
            std::memcpy(shm->rec + 1, s.rec_.data(), k2 * sizeof(u64));
            shm->rec[0] = k2;
            shm->failed = i + 1;
            break;
        }
        st.cases++;
        if (disc) {
            st.discarded++;
            continue;
        }
        st.ops += std::max<u64>(s.ops, std::exchange(checks_done, 0ULL));
        for (auto& [k, v] : s.labels_) st.labels[k]++;
        if (s.nontrivial_) {
            st.nontrivial++;
            if (seen.size() < 4000000) seen.insert(hash_choices(s.rec_));
            if (sample) st.samples.push_back(s.notes_.str());
        }
    }
    shm->case_no = 0;
    std::ofstream os(out, std::ios::binary | std::ios::app);
    os << "C " << st.cases << ' ' << st.discarded << ' ' << st.nontrivial << ' ' << st.ops << ' ' << st.capped << '\n';
    for (auto& [k, v] : st.labels) os << "L " << v << ' ' << k << '\n';
    for (auto& x : st.samples) os << "S " << x.size() << '\n' << x << '\n';
    os << "H " << seen.size() << '\n';
    for (auto h : seen) os.write(reinterpret_cast<char const*>(&h), sizeof h);
    os << '\n';
    os.close();
    shm->done = 1;
    std::_Exit(0);
}

static void merge(Stats& st, std::unordered_set<u64>& all, std::string const& path) {
    std::ifstream is(path, std::ios::binary);
    std::string line;
    while (std::getline(is, line)) {
        if (line.empty()) continue;
        std::istringstream ls(line.substr(1));
        if (line[0] == 'C') {
            u64 a = 0, b = 0, c = 0, d = 0;
            bool e = false;
            ls >> a >> b >> c >> d >> e;
            st.cases += a;
            st.discarded += b;
            st.nontrivial += c;
            st.ops += d;
            st.capped = st.capped || e;
        } else if (line[0] == 'L') {
            u64 v = 0;
            ls >> v;
            std::string k;
            std::getline(ls, k);
            st.labels[k.substr(1)] += v;
        } else if (line[0] == 'S') {
            std::size_t n = 0;
            ls >> n;
            std::string x(n, 0);
            is.read(x.data(), static_cast<std::streamsize>(n));
            st.samples.push_back(x);
        } else if (line[0] == 'H') {
            std::size_t n = 0;
            ls >> n;
            for (std::size_t i = 0; i < n; ++i) {
                u64 h = 0;
                is.read(reinterpret_cast<char*>(&h), sizeof h);
                all.insert(h);
            }
        }
    }
}

struct Args {
    std::string property = "P00";
    u64 seed = 1;
    std::string tier = "quick";
    std::string stats;
    std::string replay_dir = ".";
    std::string replay;
    std::string replay_bytes;
    std::string facet;
    double cap = 60;
    double factor = 1.0;
    bool list = false;
};

static Facet const* find(std::string const& name) {
    for (auto& f : facets()) {
        if (f.name == name) return &f;
    }
    return nullptr;
}

static std::string write_replay(Args const& a, Facet const& f, std::vector<u64> const& rec, Outcome const& o, std::string const& how) {
    mkdir(a.replay_dir.c_str(), 0755);
    std::ostringstream c;
    for (auto v : rec) c << v << ' ';
    char h[20];
    std::snprintf(h, sizeof h, "%08llx", static_cast<unsigned long long>(fnv(f.name + c.str()) & 0xffffffffULL));
    std::string path = a.replay_dir + "/" + a.property + "-" + h + ".replay";
    std::ofstream os(path);
    os << "property=" << a.property << "\nfacet=" << f.name << "\nchoices=" << c.str() << "\n";
    auto comment = [&](std::string const& t) {
        std::istringstream is(t);
        std::string l;
        while (std::getline(is, l)) os << "# " << l << "\n";
    };
    comment(how);
    comment("failure: " + o.msg);
    comment("case:");
    comment(o.notes);
    return path;
}

static int replay(Args const& a) {
    std::ifstream is(a.replay);
    std::string line, fname;
    std::vector<u64> choices;
    while (std::getline(is, line)) {
        if (line.rfind("facet=", 0) == 0) fname = line.substr(6);
        if (line.rfind("choices=", 0) == 0) {
            std::istringstream ls(line.substr(8));
            u64 v = 0;
            while (ls >> v) choices.push_back(v);
        }
    }
    auto* f = find(fname);
    if (!f) {
        std::cerr << "no such facet: " << fname << "\n";
        return 3;
    }
    int tries = f->opt.nondet ? 300 : 1;
    for (int i = 0; i < tries; ++i) {
        auto o = run_forked(*f, &choices, 0, 0, f->opt.hang_s, true);
        if (i == 0) std::cout << o.notes;
        if (o.failed) {
            std::cout << "failure: " << o.msg << "\n";
            std::cout << "VIOLATION property=" << a.property << " replay=" << a.replay << std::endl;
            return 1;
        }
    }
    std::cout << "held\n";
    return 0;
}

static int confirm_and_report(Args const& a, Facet const& f, std::vector<u64> rec, std::string const& msg, bool& confirmed) {
    confirmed = false;
    int hits = 0;
    int tries = f.opt.nondet ? 60 : 3;
    auto began = now();
    Outcome last;
    for (int i = 0; i < tries; ++i) {
        auto o = run_forked(f, &rec, 0, 0, f.opt.hang_s, true);
        if (o.failed) {
            hits++;
            last = o;
        }
        if (f.opt.nondet && (hits >= 1 || now() - began > 60)) break;
    }
    bool good = f.opt.nondet ? true : hits == 3;  // schedule dependent: the oracle is sound for every schedule
    if (!good) {
        std::cout << "# not reproducible (" << hits << "/" << tries << "), ignored: facet " << f.name << ": " << msg << std::endl;
        return 0;
    }
    confirmed = true;
    std::string how = cat("original failure: ", msg);
    if (hits == 0) {
        last.msg = msg;
    } else if (!f.opt.nondet) {
        u64 attempts = 0;
        bool hang = last.msg.find("(hang)") != std::string::npos;
        auto small = hang ? rec : shrink(f, rec, 25.0, f.opt.hang_s, attempts);
        auto o = run_forked(f, &small, 0, 0, f.opt.hang_s, true);
        if (o.failed) {
            how += cat("\nshrunk from ", rec.size(), " to ", small.size(), " choices in ", attempts, " attempts");
            rec = small;
            last = o;
        }
    }
    auto path = write_replay(a, f, rec, last, how);
    std::cout << "facet: " << f.name << "\n" << last.notes << "failure: " << last.msg << "\n";
    std::cout << "VIOLATION property=" << a.property << " replay=" << path << std::endl;
    return 1;
}

static int real_main(int argc, char** argv) {
    Args a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        auto v = [&] { return std::string(argv[++i]); };
        if (k == "--property") a.property = v();
        else if (k == "--seed") a.seed = std::stoull(v());
        else if (k == "--tier") a.tier = v();
        else if (k == "--stats") a.stats = v();
        else if (k == "--replay-dir") a.replay_dir = v();
        else if (k == "--replay") a.replay = v();
        else if (k == "--replay-bytes") a.replay_bytes = v();
        else if (k == "--facet") a.facet = v();
        else if (k == "--cap") a.cap = std::stod(v());
        else if (k == "--factor") a.factor = std::stod(v());
        else if (k == "--list") a.list = true;
        else {
            std::cerr << "unknown option " << k << "\n";
            return 3;
        }
    }
    char tmpl[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(tmpl)) return 3;
    workdir = tmpl;
    struct Cleanup {
        ~Cleanup() {
            for (auto n : {"child.log"}) unlink((workdir + "/" + n).c_str());
            for (int w = 0; w < 64; ++w) {
                unlink(cat(workdir, "/w", w, ".out").c_str());
                unlink(cat(workdir, "/w", w, ".log").c_str());
            }
            rmdir(workdir.c_str());
        }
    } cleanup;
    if (!a.replay.empty()) return replay(a);
    if (!a.replay_bytes.empty()) {
        auto* f = find(a.facet);
        if (!f) return 3;
        std::ifstream is(a.replay_bytes, std::ios::binary);
        std::string b((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
        auto o = run_forked(*f, nullptr, 0, 0, f->opt.hang_s, false, &b);
        if (!o.failed) return 0;
        bool confirmed = false;
        return confirm_and_report(a, *f, o.rec, o.msg, confirmed);
    }
    if (a.list) {
        for (auto& f : facets()) std::cout << f.name << (f.opt.fuzz && !f.opt.nondet ? " fuzz" : "") << "\n";
        return 0;
    }
    std::vector<Facet> todo;
    for (auto& f : facets()) {
        if (a.facet.empty() || f.name.find(a.facet) != std::string::npos) todo.push_back(f);
    }
    double t_end = now() + a.cap;
    std::ostringstream js;
    js << "{\"facets\":[";
    bool violated = false;
    std::size_t k = 0;
    for (auto& f : todo) {
        u64 n = f.opt.quick;
        if (a.tier == "thorough") n = f.opt.thorough != 0 ? f.opt.thorough : f.opt.quick * 20;
        n = std::max<u64>(1, static_cast<u64>(static_cast<double>(n) * a.factor));
        double t0 = now();
        double deadline = t0 + std::max(3.0, (t_end - t0) / static_cast<double>(todo.size() - k));
        u64 nw = static_cast<u64>(f.opt.workers);
        static Shm* shm = shared<Shm>(64);
        std::vector<pid_t> pid(nw, 0);
        std::vector<std::string> outs;
        auto spawn = [&](u64 w, u64 first) {
            shm[w].case_no = 0;
            shm[w].done = 0;
            shm[w].failed = 0;
            shm[w].start = now();
            pid[w] = fork();
            if (pid[w] == 0) {
                redirect(cat(workdir, "/w", w, ".log"));
                worker(f, a.seed, w, nw, n, first, deadline, &shm[w], cat(workdir, "/w", w, ".out"));
            }
        };
        for (u64 w = 0; w < nw; ++w) {
            unlink(cat(workdir, "/w", w, ".out").c_str());
            spawn(w, w);
        }
        u64 unreproducible = 0;
        while (true) {
            bool any = false;
            bool stop = false;
            for (u64 w = 0; w < nw && !stop; ++w) {
                if (pid[w] == 0) continue;
                int st = 0;
                pid_t r = waitpid(pid[w], &st, WNOHANG);
                bool candidate = false;
                std::vector<u64> rec;
                std::string msg;
                u64 c = 0;
                if (r == pid[w]) {
                    pid[w] = 0;
                    if (shm[w].failed != 0) {
                        candidate = true;
                        c = shm[w].failed - 1;
                        rec.assign(shm[w].rec + 1, shm[w].rec + 1 + shm[w].rec[0]);
                        msg = shm[w].msg;
                    } else if (shm[w].done == 0) {
                        candidate = true;
                        c = shm[w].case_no == 0 ? 0 : shm[w].case_no - 1;
                        msg = cat("process died (", WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) : cat("exit ", WEXITSTATUS(st)), "): ",
                            tail(cat(workdir, "/w", w, ".log"), 3000));
                    }
                } else if (shm[w].case_no != 0 && now() - shm[w].start > f.opt.hang_s * 1.5) {
                    candidate = true;
                    c = shm[w].case_no - 1;
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0);
                    pid[w] = 0;
                    msg = "single case did not finish (hang)";
                }
                if (candidate) {
                    // stop the others while confirming, so that confirmation runs undisturbed
                    for (u64 x = 0; x < nw; ++x) if (pid[x] != 0) kill(pid[x], SIGSTOP);
                    if (rec.empty()) {
                        auto o = run_forked(f, nullptr, case_rng(a.seed, f, c), case_scale(c, n), f.opt.hang_s, false);
                        rec = o.rec;
                    }
                    bool confirmed = false;
                    confirm_and_report(a, f, rec, msg, confirmed);
                    if (confirmed) {
                        violated = true;
                        stop = true;
                        for (u64 x = 0; x < nw; ++x) {
                            if (pid[x] != 0) {
                                kill(pid[x], SIGKILL);
                                int st2 = 0;
                                waitpid(pid[x], &st2, 0);
                                pid[x] = 0;
                            }
                        }
                    } else {
                        unreproducible++;
                        for (u64 x = 0; x < nw; ++x) {
                            if (pid[x] != 0) {
                                shm[x].start = now();
                                kill(pid[x], SIGCONT);
                            }
                        }
                        if (unreproducible < 20) spawn(w, c + nw);
                    }
                }
                any = any || pid[w] != 0;
            }
            if (stop || !any) break;
            usleep(20000);
        }
        Stats st;
        st.planned = n;
        std::unordered_set<u64> all;
        for (u64 w = 0; w < nw; ++w) merge(st, all, cat(workdir, "/w", w, ".out"));
        st.distinct_nontrivial = all.size();
        st.wall = now() - t0;
        std::cout << "# " << f.name << ": " << st.cases << "/" << n << " cases, " << st.nontrivial << " non-trivial (" << all.size()
                  << " distinct), " << st.discarded << " discarded, " << st.ops << " oracle comparisons, " << std::fixed << std::setprecision(1)
                  << st.wall << " s" << (st.capped ? " [time cap]" : "") << (unreproducible ? cat(" [", unreproducible, " unreproducible]") : "")
                  << (violated ? " [VIOLATED]" : "") << std::endl;
        if (k++ != 0) js << ",";
        js << "{\"name\":" << json(f.name) << ",\"rule\":" << json(f.rule) << ",\"planned\":" << n << ",\"cases\":" << st.cases
           << ",\"discarded\":" << st.discarded << ",\"nontrivial\":" << st.nontrivial << ",\"distinct_nontrivial\":" << st.distinct_nontrivial
           << ",\"ops\":" << st.ops << ",\"wall_s\":" << st.wall << ",\"capped\":" << (st.capped ? "true" : "false")
           << ",\"unreproducible\":" << unreproducible << ",\"labels\":{";
        bool first = true;
        for (auto& [l, v] : st.labels) {
            js << (first ? "" : ",") << json(l) << ":" << v;
            first = false;
            if (a.tier == "labels") std::cout << "    " << l << ": " << v << "\n";
        }
        js << "},\"samples\":[";
        first = true;
        for (auto& x : st.samples) {
            js << (first ? "" : ",") << json(x);
            first = false;
        }
        js << "]}";
        if (violated) break;
    }
    js << "],\"violated\":" << (violated ? "true" : "false") << "}";
    if (!a.stats.empty()) {
        std::ofstream os(a.stats);
        os << js.str() << "\n";
    }
    return violated ? 1 : 0;
}
#else
// libFuzzer build: first byte selects the facet unless PBT_FUZZ_FACET names one
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
    static Facet const* fixed = [] {
        const char* n = std::getenv("PBT_FUZZ_FACET");
        Facet const* r = nullptr;
        for (auto& f : facets()) {
            if (n && f.name == n) r = &f;
        }
        return r;
    }();
    if (!fixed) return 0;
    Src s;
    s.mode_ = Src::Mode::bytes;
    s.data_ = data;
    s.data_size_ = size;
    bool disc = false;
    auto m = run_case(*fixed, s, 0, disc);
    if (!m.empty()) {
        std::fprintf(stderr, "PBT-FAIL %s\n", m.c_str());
        if (const char* out = std::getenv("PBT_FUZZ_OUT")) {
            std::ofstream os(out);
            os << "facet=" << fixed->name << "\nchoices=";
            for (auto v : s.rec_) os << v << ' ';
            os << "\n";
        }
        __builtin_trap();
    }
    return 0;
}
#endif
}  // namespace pbt

#ifndef PBT_FUZZ
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:max_allocation_size_mb=4096";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1"; }
int main(int argc, char** argv) { return pbt::real_main(argc, argv); }
#endif
