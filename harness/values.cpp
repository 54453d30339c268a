// Variable-length values: accessor::text / accessor::binary / binary_string_value and hashing.
#include "pbt.h"

#include <algorithm>
#include <memory>
#include <sstream>
#include <unordered_map>

#include <jogasaki/accessor/binary.h>
#include <jogasaki/accessor/text.h>
#include <jogasaki/data/aligned_buffer.h>
#include <jogasaki/data/binary_string_value.h>
#include <jogasaki/memory/paged_memory_resource.h>
#include <jogasaki/utils/hash_combine.h>
#include <jogasaki/utils/split_mix64.h>

using namespace pbt;
using jogasaki::accessor::binary;
using jogasaki::accessor::text;

// every block separately malloc'ed with its exact size
class exact_resource : public jogasaki::memory::paged_memory_resource {
public:
    ~exact_resource() override { for (auto* p : blocks_) std::free(p); }
    std::size_t allocated = 0;
    void release_all() {
        for (auto* p : blocks_) std::free(p);
        blocks_.clear();
    }
    
    void end_current_page() override {}
protected:
    [[nodiscard]] std::size_t do_page_remaining(std::size_t) const noexcept override { return unknown_size; }
    void* do_allocate(std::size_t bytes, std::size_t) override {
        auto* p = std::malloc(bytes);
        allocated += bytes;
        blocks_.push_back(p);
        return p;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    [[nodiscard]] bool do_is_equal(memory_resource const& o) const noexcept override { return this == &o; }
private:
    std::vector<void*> blocks_;
};

struct exact_buf {
    explicit exact_buf(std::string const& s) : n(s.size()), p(new char[s.size()]) { std::memcpy(p.get(), s.data(), n); }
    std::size_t n;
    std::unique_ptr<char[]> p;
};

static thread_local bool large_values = false;

static std::string gen_content(Src& s) {
    if (large_values) {  // lengths around what one, two or three bytes can count, cheap to draw
        auto base = s.pick<std::size_t>({4096, 32768, 65536, 131072});
        if (s.chance(1)) base = std::size_t{1} << 24U;
        std::string r(base - 4 + s.draw(8), '\0');
        auto c = s.draw(255) | 1U;
        for (std::size_t i = 0; i < r.size(); ++i) r[i] = static_cast<char>(i * c + (i >> 8U));
        return r;
    }
    // lengths concentrated around the short/long boundary and one-byte size limits
    std::size_t n = 0;
    switch (s.draw(6)) {
        case 0: n = s.draw(3); break;
        case 1: case 2: n = 12 + s.draw(6); break;
        case 3: n = s.draw(40); break;
        case 4: n = s.pick<std::size_t>({7, 8, 14, 15, 16, 17, 30, 31, 32, 127, 128, 129, 255, 256, 257}); break;
        default: n = s.draw(s.chance(5) ? 5000 : 300); break;
    }
    std::string r;
    int style = static_cast<int>(s.draw(2));
    for (std::size_t i = 0; i < n; ++i) {
        r.push_back(style == 0 ? static_cast<char>('a' + s.draw(1)) : style == 1 ? s.pick<char>({'\0', 'a', '\x7f', '\x80', '\xff'}) : static_cast<char>(s.draw(255)));
    }
    return r;
}

// derive a string close to base: equal, prefix, one byte changed, extended
static std::string gen_related(Src& s, std::string const& base) {
    std::string r = base;
    switch (s.draw(5)) {
        case 0: break;
        case 1: r = base.substr(0, s.draw(base.size())); break;
        case 2: if (!r.empty()) r[s.idx(r.size())] = static_cast<char>(s.draw(255)); break;
        case 3: r += static_cast<char>(s.draw(255)); break;
        case 4: if (!r.empty()) r.back() = static_cast<char>(static_cast<unsigned char>(r.back()) + 1); break;
        default: r = gen_content(s); break;
    }
    return r;
}

static int sgn(int x) { return (x > 0) - (x < 0); }
static int ref_cmp(std::string const& a, std::string const& b) {
    std::size_t n = std::min(a.size(), b.size());
    for (std::size_t i = 0; i < n; ++i) {
        auto x = static_cast<unsigned char>(a[i]), y = static_cast<unsigned char>(b[i]);
        if (x != y) return x < y ? -1 : 1;
    }
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}

template <class T>
static T build(Src& s, exact_resource& r, std::string const& v, std::vector<std::unique_ptr<exact_buf>>& keep) {
    auto e = std::make_unique<exact_buf>(v);
    switch (s.draw(5)) {
        case 0: return T{&r, e->p.get(), v.size()};
        case 1: return T{&r, std::string_view{e->p.get(), v.size()}};
        case 2: {
            keep.push_back(std::move(e));
            return T{keep.back()->p.get(), v.size()};
        }
        case 3: {
            keep.push_back(std::move(e));
            return T{std::string_view{keep.back()->p.get(), v.size()}};
        }
        case 4: {  // copy of a view object into the resource
            keep.push_back(std::move(e));
            T src{std::string_view{keep.back()->p.get(), v.size()}};
            return T{&r, src};
        }
        default: {  // concatenation of two parts, each built in its own way
            std::size_t k = s.draw(v.size());
            T a = build<T>(s, r, v.substr(0, k), keep);
            T b = build<T>(s, r, v.substr(k), keep);
            return T{&r, a, b};
        }
    }
}

template <class T>
static void check_one(T const& t, std::string const& v) {
    PBT_EQ(t.size(), v.size(), "size of ", show(v));
    PBT_EQ(static_cast<std::string>(t), v);
    auto sv = static_cast<std::string_view>(t);
    PBT_CHECK(sv == std::string_view(v), "view differs: ", show(sv), " expected ", show(v));
    PBT_EQ(t.empty(), v.empty());
    PBT_EQ(static_cast<bool>(t), !v.empty());
    if (!v.empty() && !t.is_short()) {
        // a value owned by the resource: pointer is outside the object
        auto* p = reinterpret_cast<char const*>(&t);
        PBT_CHECK(sv.data() < p || sv.data() >= p + sizeof(T), "long value points into itself");
    }
}

template <class T>
static void run_value(Src& s) {
    exact_resource r;
    std::vector<std::unique_ptr<exact_buf>> keep;
    auto va = gen_content(s);
    auto vb = gen_related(s, va);
    auto vc = gen_related(s, vb);
    T a = build<T>(s, r, va, keep);
    T b = build<T>(s, r, vb, keep);
    T c = build<T>(s, r, vc, keep);
    s.note("a=", show(va), " b=", show(vb), " c=", show(vc));
    check_one(a, va);
    check_one(b, vb);
    check_one(c, vc);
    // a value is trivially copyable: a bitwise copy elsewhere has the same content
    {
        alignas(T) unsigned char raw[sizeof(T)];
        std::memcpy(raw, &a, sizeof(T));
        T d;
        std::memcpy(static_cast<void*>(&d), raw, sizeof(T));
        check_one(d, va);
    }
    int ab = ref_cmp(va, vb);
    PBT_EQ(sgn(compare(a, b)), ab, "compare ", show(va), " with ", show(vb));
    PBT_EQ(sgn(compare(b, a)), -ab);
    PBT_EQ(a < b, ab < 0);
    PBT_EQ(a > b, ab > 0);
    PBT_EQ(a <= b, ab <= 0);
    PBT_EQ(a >= b, ab >= 0);
    PBT_EQ(a == b, ab == 0);
    PBT_EQ(a != b, ab != 0);
    if (compare(a, b) <= 0 && compare(b, c) <= 0) PBT_CHECK(compare(a, c) <= 0, "order is not transitive");
    std::hash<T> h{};
    if (ab == 0) PBT_EQ(h(a), h(b), "equal values with different hashes: ", show(va));
    // concatenation
    T cc{&r, a, b};
    check_one(cc, va + vb);
    check_one(a, va);
    check_one(b, vb);
    // a copy made into the resource survives the source
    std::string big = va + vb + vc;
    auto src = std::make_unique<exact_buf>(big);
    T own{&r, src->p.get(), big.size()};
    std::memset(src->p.get(), 'Z', big.size());
    src.reset();
    check_one(own, big);
    std::ostringstream os;
    os << a;
    PBT_CHECK(!os.str().empty(), "nothing printed");
    s.ops += 24;
    if (va.size() != vb.size() || va != vb) {
        if ((va.size() > 15) != (vb.size() > 15)) s.label("short-long pair");
        if (!va.empty() && !vb.empty()) s.nontrivial();
    } else {
        s.label("equal pair");
        if (a.is_short() != b.is_short()) s.label("equal pair, different form");
    }
}

PBT_FACET(texts, "text-value", "two non-empty different values built in independently chosen ways", .quick = 300000) { run_value<text>(s); }
PBT_FACET(binaries, "binary-value", "two non-empty different values built in independently chosen ways", .quick = 200000) { run_value<binary>(s); }

// the same for values of many kilobytes
PBT_FACET(texts_large, "text-value-large", "two non-empty different values built in independently chosen ways", .quick = 1500, .fuzz = false) {
    large_values = true;
    struct off { ~off() { large_values = false; } } o;
    if (s.flip()) run_value<text>(s);
    else run_value<binary>(s);
}

PBT_FACET(binstr, "binary-string-value", "equal or nearly equal pair", .quick = 60000) {
    using jogasaki::data::binary_string_value;
    auto a = gen_content(s);
    auto b = gen_related(s, a);
    binary_string_value x{a};
    binary_string_value y{std::string_view{b}};
    PBT_EQ(x.str(), a);
    PBT_EQ(y.str(), b);
    s.note("a=", show(a), " b=", show(b));
    s.ops += 2;
    if (!a.empty()) s.nontrivial();
}

// sorting a set of values by the operators gives the byte order of their contents, with nothing lost
PBT_FACET(sorting, "text-sort", "at least 4 values with both short and long ones", .quick = 40000) {
    exact_resource r;
    std::vector<std::unique_ptr<exact_buf>> keep;
    std::vector<std::string> m;
    std::vector<text> v;
    std::size_t n = 1 + s.size(20);
    for (std::size_t i = 0; i < n; ++i) {
        m.push_back(m.empty() || s.chance(40) ? gen_content(s) : gen_related(s, m[s.idx(m.size())]));
        v.push_back(build<text>(s, r, m.back(), keep));
    }
    std::sort(v.begin(), v.end());
    std::sort(m.begin(), m.end(), [](auto& a, auto& b) { return ref_cmp(a, b) < 0; });
    for (std::size_t i = 0; i < n; ++i) check_one(v[i], m[i]);
    std::unordered_map<text, std::size_t> um;
    std::map<std::string, std::size_t> mm;
    for (auto& t : v) um[t]++;
    for (auto& t : m) mm[t]++;
    PBT_EQ(um.size(), mm.size(), "distinct values");
    for (auto& [k, cnt] : um) PBT_EQ(cnt, mm[static_cast<std::string>(k)]);
    s.note(n, " values");
    s.ops += 2 * n;
    bool sh = false, lo = false;
    for (auto& t : v) (t.is_short() ? sh : lo) = true;
    if (n >= 4 && sh && lo) s.nontrivial();
}

// ---- growable buffers -------------------------------------------------------------------------------
PBT_FACET(buffers, "aligned-buffer", "the buffer is grown beyond its capacity while holding data", .quick = 150000) {
    using jogasaki::data::aligned_buffer;
    struct model { std::string data; std::size_t align; };
    std::vector<aligned_buffer> bufs;
    std::vector<model> ms;
    std::size_t nb = 1 + s.draw(2);
    for (std::size_t i = 0; i < nb; ++i) {
        if (s.flip()) {
            std::size_t cap = s.draw(3) == 0 ? 0 : s.size(100);
            std::size_t al = std::size_t{1} << s.draw(6);
            bufs.emplace_back(cap, al);
            PBT_CHECK(bufs.back().capacity() >= cap, "capacity");
            ms.push_back({"", al});
            s.note("new cap=", cap, " align=", al);
        } else {
            auto d = s.bytes(60);
            bufs.emplace_back(std::string_view(d));
            ms.push_back({d, aligned_buffer::default_alignment});
            s.note("new data=", show(d));
        }
    }
    auto verify = [&] {
        for (std::size_t i = 0; i < bufs.size(); ++i) {
            auto& b = bufs[i];
            auto& m = ms[i];
            PBT_EQ(b.size(), m.data.size(), "buffer ", i);
            PBT_EQ(static_cast<std::string_view>(b), std::string_view(m.data), "buffer ", i);
            PBT_CHECK(b.capacity() >= b.size(), "capacity below size");
            PBT_EQ(b.alignment(), m.align);
            PBT_CHECK(reinterpret_cast<std::uintptr_t>(b.data()) % m.align == 0, "misaligned data");
            PBT_EQ(b.empty(), m.data.empty());
            PBT_EQ(static_cast<bool>(b), b.capacity() != 0);
            PBT_CHECK(b == b && !(b != b), "not equal to itself");
            s.ops += 5;
        }
    };
    verify();
    std::size_t ops = s.size(14);
    for (std::size_t k = 0; k < ops; ++k) {
        auto i = s.idx(bufs.size());
        auto& b = bufs[i];
        auto& m = ms[i];
        auto cap = b.capacity();
        switch (s.draw(6)) {
            case 0: {
                auto d = s.bytes(s.chance(30) ? 300 : 40);
                if (s.chance(8)) {  // several pages, cheap to draw
                    auto n = 1000 + s.draw(19000);
                    auto c = static_cast<unsigned>(s.draw(255)) | 1U;
                    d.resize(n);
                    for (std::size_t x = 0; x < n; ++x) d[x] = static_cast<char>(x * c + (x >> 8U));
                    s.note("assign ", i, " ", n, " bytes");
                }
                s.note("assign ", i, " ", show(d));
                b.assign(std::string_view(d));
                m.data = d;
                break;
            }
            case 1: {
                auto j = s.idx(bufs.size());
                s.note("assign ", i, " <- ", j);
                b.assign(bufs[j]);
                m.data = ms[j].data;
                break;
            }
            case 2: {
                std::size_t n = s.chance(30) ? s.draw(400) : m.data.size() > 1000 ? m.data.size() + s.draw(400) : s.draw(std::min<std::size_t>(2 * cap + 2, 1000));
                s.note("resize ", i, " ", n);
                auto old = m.data.size();
                b.resize(n);
                m.data.resize(n, 0);
                if (n > cap && old > 0) s.nontrivial();
                if (n <= cap) PBT_EQ(b.capacity(), cap, "capacity changed by a resize that fits");
                // bytes beyond the old size are unspecified when reusing capacity: define them through data()
                for (std::size_t x = std::min(old, n); x < n; ++x) {
                    char c = static_cast<char>(s.draw(255));
                    static_cast<char*>(b.data())[x] = c;
                    m.data[x] = c;
                }
                break;
            }
            case 3:
                s.note("shrink ", i);
                b.shrink_to_fit();
                PBT_EQ(b.capacity(), m.data.size(), "capacity after shrink_to_fit");
                break;
            case 4:
                for (auto& c : m.data) {
                    if (&c - m.data.data() >= 500) break;
                    c = static_cast<char>(s.draw(255));
                    static_cast<char*>(b.data())[&c - m.data.data()] = c;
                }
                // the whole capacity is usable memory
                if (b.capacity() > m.data.size()) static_cast<char*>(b.data())[b.capacity() - 1] = 1;
                break;
            case 5: {  // move out and back
                s.note("move ", i);
                aligned_buffer t{std::move(b)};
                PBT_EQ(static_cast<std::string_view>(t), std::string_view(m.data), "moved-to");
                PBT_EQ(t.alignment(), m.align);
                b = std::move(t);
                break;
            }
            default: {
                std::ostringstream os;
                os << b;
                b.dump(os, 2);
                PBT_CHECK(os.str().size() > m.data.size() * 4, "dump shows the whole content");
                break;
            }
        }
        verify();
    }
}
