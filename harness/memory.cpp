// P12: paged memory: every allocation keeps its bytes until it is released, and pages go back to the pool.
#include <atomic>
#include <cstring>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/memory/block_memory_resource.h>
#include <jogasaki/memory/details/page_allocation_info.h>
#include <jogasaki/memory/fifo_paged_memory_resource.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/utils/checkpoint_holder.h>
#include <jogasaki/utils/lazy_checkpoint_holder.h>
#include "pbt.h"
using namespace pbt;
using namespace jogasaki;
using memory::page_pool;
using memory::page_size;

namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration> arg) {
    static takatori::util::maybe_shared_ptr<configuration> cfg = std::make_shared<configuration>();
    if (arg) cfg = std::move(arg);
    return cfg;
}
}  // namespace jogasaki::global

namespace {

std::size_t free_pages(page_pool& p) {
    std::ostringstream o;
    p.unsafe_dump_info(o);
    std::string t = o.str();
    std::size_t total = 0, pos = 0;
    while ((pos = t.find("\"free_page_count\":", pos)) != std::string::npos) {
        pos += 18;
        total += std::stoull(t.substr(pos));
    }
    return total;
}

// one live region; a pattern derived from `seed` is kept in (a sample of) its bytes
struct Region {
    char* p = nullptr;
    std::size_t n = 0, al = 1;
    u64 seed = 0;
    static constexpr std::size_t edge = 96;
    char at(std::size_t i) const { return static_cast<char>((seed * 31 + i * 7) >> 1); }
    template <class F>
    void each(F f) const {
        for (std::size_t i = 0; i < n; ++i) {
            if (i == edge && n > 2 * edge) i = n - edge;
            f(i);
        }
    }
    void fill() { each([&](std::size_t i) { p[i] = at(i); }); }
    void verify(char const* when) const {
        each([&](std::size_t i) { PBT_CHECK(p[i] == at(i), "byte ", i, " of a live region of ", n, " bytes changed ", when); });
    }
};

std::size_t gen_bytes(Src& s) {
    switch (s.draw(9)) {
        case 0: case 1: case 2: case 3: return 1 + s.draw(200);
        case 4: case 5: return 1 + s.draw(70000);
        case 6: return page_size / 4 + s.draw(page_size / 2);
        case 7: return page_size - s.draw(4200);
        case 8: return page_size;
        default: return s.pick<std::size_t>({1, 4095, 4096, 4097, page_size / 2, page_size / 2 + 1});
    }
}
std::size_t gen_align(Src& s) { return std::size_t{1} << (s.chance(80) ? s.draw(6) : s.draw(12)); }

void no_overlap(std::vector<Region> const& live, Region const& r) {
    for (auto const& o : live)
        PBT_CHECK(r.p + r.n <= o.p || o.p + o.n <= r.p, "a new region of ", r.n, " bytes overlaps a live one of ", o.n);
}

// what page_remaining promises: that many bytes fit the current page, one more does not
template <class Res>
Region allocate(Src& s, Res& res, std::vector<Region>& live, std::size_t n, std::size_t al, bool exact = true) {
    auto rem = res.page_remaining(al);
    auto before = res.count_pages();
    Region r{static_cast<char*>(res.allocate(n, al)), n, al, s.any_u64()};
    PBT_CHECK(r.p != nullptr, "no memory");
    PBT_EQ(reinterpret_cast<std::uintptr_t>(r.p) % al, 0u, "alignment ", al, " size ", n);
    no_overlap(live, r);
    if (exact) {
        bool fits = before > 0 && n <= rem;
        PBT_EQ(res.count_pages(), before + (fits ? 0 : 1), n, " bytes aligned ", al, " with ", rem, " remaining");
    }
    r.fill();
    live.push_back(r);
    s.ops += 3;
    return r;
}
template <class Res>
void too_big(Src& s, Res& res, std::vector<Region> const& live) {
    std::size_t n = page_size + 1 + s.draw(5000);
    PBT_CHECK((throws<std::bad_alloc>([&] { (void)res.allocate(n, 8); })), n, " bytes do not fit a page but were handed out");
    for (auto const& r : live) r.verify("by a failed request");
}

}  // namespace

PBT_FACET(mono, "monotonic resource", "more than one page is used", .quick = 3000, .hang_s = 60) {
    page_pool pool{};
    std::size_t pages = 0;
    {
        memory::monotonic_paged_memory_resource res{&pool};
        PBT_EQ(res.page_remaining(1), 0u);
        std::vector<Region> live;
        std::size_t n = 1 + s.size(40);
        for (std::size_t i = 0; i < n; ++i) {
            switch (s.draw(9)) {
                case 0: {
                    auto c = res.count_pages();
                    auto rem = res.page_remaining(1);
                    res.end_current_page();
                    PBT_EQ(res.page_remaining(1), page_size);
                    PBT_EQ(res.count_pages(), c + ((c && rem == page_size) ? 0 : 1));
                    break;
                }
                case 1:
                    if (!live.empty()) {  // releasing is a no-op
                        auto const& r = s.pick(live);
                        res.deallocate(r.p, r.n, r.al);
                    }
                    break;
                case 2: if (s.chance(20)) { too_big(s, res, live); break; } [[fallthrough]];
                default: allocate(s, res, live, gen_bytes(s), gen_align(s));
            }
        }
        for (auto const& r : live) r.verify("before the resource ended");
        PBT_CHECK(res.is_equal(res), "identity");
        memory::monotonic_paged_memory_resource other{&pool};
        PBT_CHECK(!res.is_equal(other), "identity");
        pages = res.count_pages();
        if (pages > 1) s.nontrivial();
        PBT_EQ(free_pages(pool), 0u);
    }
    PBT_EQ(free_pages(pool), pages, "pages returned by the resource");
}

PBT_FACET(lifo, "lifo resource with checkpoints", "memory is released back to a checkpoint", .quick = 6000, .hang_s = 60) {
    page_pool pool{};
    {
        memory::lifo_paged_memory_resource res{&pool};
        std::vector<Region> live;
        // stack discipline: releasing to a point ends every point taken after it
        struct Cp { memory::lifo_paged_memory_resource::checkpoint cp; std::size_t depth; std::size_t seq; };
        std::vector<Cp> cps;
        struct Hold { std::unique_ptr<utils::checkpoint_holder> first; std::size_t second; std::size_t seq; };
        std::vector<Hold> holders;
        std::size_t seq = 0;
        auto ended = [&](std::size_t q) {
            while (!cps.empty() && cps.back().seq > q) cps.pop_back();
        };
        bool tail_unused = false;  // a page that was begun but never used is last: checkpoints are not taken there
        bool unused_pages = false;
        std::size_t n = 1 + s.size(60), peak = 0;
        auto drop_to = [&](std::size_t d) {
            for (auto const& r : live) r.verify("while others were released");
            live.resize(d);
            for (auto const& r : live) r.verify("by releasing younger ones");
        };
        auto trim = [&] {
            while (!cps.empty() && cps.back().depth > live.size()) cps.pop_back();
        };
        for (std::size_t i = 0; i < n; ++i) {
            peak = std::max(peak, res.count_pages());
            switch (s.draw(13)) {
                case 0:
                    if (!live.empty() && (holders.empty() || live.size() > holders.back().second)) {
                        auto r = live.back();
                        r.verify("before it was released");
                        res.deallocate(r.p, r.n, r.al);
                        drop_to(live.size() - 1);
                        trim();
                        tail_unused = unused_pages;
                    }
                    break;
                case 1: case 2:
                    if (!tail_unused) {
                        auto cp = res.get_checkpoint();
                        PBT_CHECK(cp == res.get_checkpoint() && !(cp != res.get_checkpoint()), "checkpoint comparison");
                        cps.push_back({cp, live.size(), ++seq});
                    }
                    break;
                case 3: case 4:
                    if (!cps.empty()) {
                        auto cp = cps[s.idx(cps.size())];
                        if (!holders.empty() && cp.seq < holders.back().seq) break;
                        ended(cp.seq);
                        if (cp.depth < live.size()) s.nontrivial();
                        auto again = s.flip();
                        res.deallocate_after(cp.cp);
                        drop_to(cp.depth);
                        if (again) {  // nothing was allocated since: nothing happens
                            auto c = res.count_pages();
                            res.deallocate_after(cp.cp);
                            PBT_EQ(res.count_pages(), c);
                            for (auto const& r : live) r.verify("by releasing to the same point again");
                        }
                        PBT_CHECK(live.empty() || res.get_checkpoint() == cp.cp || cp.cp.head_ == nullptr, "the point released to is not current");
                        trim();
                        tail_unused = false;
                    }
                    break;
                case 5:
                    if (holders.empty()) {
                        res.deallocate_after(memory::lifo_paged_memory_resource::initial_checkpoint);
                        drop_to(0);
                        cps.clear();
                        PBT_EQ(res.count_pages(), 0u, "after releasing everything");
                        tail_unused = false;
                    }
                    break;
                case 6:
                    if (!tail_unused) holders.push_back({std::make_unique<utils::checkpoint_holder>(&res), live.size(), ++seq});
                    break;
                case 7:
                    if (!holders.empty()) {
                        auto d = holders.back().second;
                        ended(holders.back().seq);
                        if (s.flip()) {
                            holders.back().first->reset();  // holders are reset once per record and stay usable
                        } else {
                            holders.pop_back();
                        }
                        drop_to(d);
                        trim();
                        tail_unused = false;
                        s.nontrivial();
                    }
                    break;
                case 8:
                    if (s.chance(30) && res.count_pages() && holders.empty() && cps.empty()) {
                        res.end_current_page();
                        PBT_EQ(res.page_remaining(1), page_size);
                        tail_unused = unused_pages = true;
                    }
                    break;
                case 9:
                    if (s.chance(30)) {
                        too_big(s, res, live);
                        tail_unused = unused_pages = true;
                        break;
                    }
                    [[fallthrough]];
                default:
                    allocate(s, res, live, gen_bytes(s), gen_align(s));
                    tail_unused = false;
            }
        }
        while (!holders.empty()) {
            auto d = holders.back().second;
            holders.pop_back();
            drop_to(d);
        }
        if (s.flip()) {
            while (!live.empty()) {
                auto r = live.back();
                r.verify("before it was released");
                res.deallocate(r.p, r.n, r.al);
                live.pop_back();
            }
            if (!unused_pages) PBT_EQ(res.count_pages(), 0u, "after releasing everything one by one");
        }
        s.label(cat("pages ", std::min<std::size_t>(peak, 5)));
    }
    // every page ever taken is free again; the pool hands out pages it has before new ones
    std::size_t f = free_pages(pool);
    std::vector<page_pool::page_info> got;
    std::set<void*> seen;
    for (std::size_t i = 0; i < f; ++i) {
        got.push_back(pool.acquire_page());
        PBT_CHECK(seen.insert(got.back().address()).second, "the pool holds a page twice");
    }
    PBT_EQ(free_pages(pool), 0u);
    for (auto& g : got) pool.release_page(g);
}

PBT_FACET(lazy, "re-armed checkpoints", "armed and released in a loop", .quick = 3000, .hang_s = 60) {
    page_pool pool{};
    memory::lifo_paged_memory_resource res{&pool};
    std::vector<Region> live;
    for (std::size_t i = 0, n = s.idx(3); i < n; ++i) allocate(s, res, live, gen_bytes(s), gen_align(s));
    utils::lazy_checkpoint_holder h{s.chance(90) ? &res : nullptr};
    bool bound = false;
    {
        // binding is observable: an unbound holder never releases anything
        utils::lazy_checkpoint_holder none{};
        none.set_checkpoint();
        none.release();
        none.reset();
    }
    bool set = false;
    std::size_t depth = 0;
    (void)bound;
    utils::lazy_checkpoint_holder g{&res};
    std::size_t n = 1 + s.size(30), rounds = 0;
    for (std::size_t i = 0; i < n; ++i) {
        switch (s.draw(5)) {
            case 0:
                if (!set) {
                    g.set_checkpoint();
                    set = true;
                    depth = live.size();
                } else {
                    PBT_CHECK((throws<std::exception>([&] { g.set_checkpoint(); })), "armed twice");
                }
                break;
            case 1:
                g.release();
                if (set) { live.resize(depth); ++rounds; }
                break;
            case 2:
                g.reset();
                if (set) { live.resize(depth); ++rounds; }
                set = false;
                break;
            case 3:
                if (s.chance(30)) { g.unset(); set = false; }
                break;
            default: allocate(s, res, live, gen_bytes(s), gen_align(s));
        }
        for (auto const& r : live) r.verify("in a checkpoint loop");
    }
    if (rounds > 1) s.nontrivial();
}

PBT_FACET(fifo, "fifo resource with checkpoints", "older regions are released while younger live", .quick = 6000, .hang_s = 60) {
    page_pool pool{};
    {
        memory::fifo_paged_memory_resource res{&pool};
        std::vector<Region> live;
        // a checkpoint is used at most once and only while the region it follows is still held
        struct Cp { memory::fifo_paged_memory_resource::checkpoint cp; u64 upto; };
        std::vector<Cp> cps;
        u64 popped = 0, pushed = 0;
        std::size_t n = 1 + s.size(60);
        for (std::size_t i = 0; i < n; ++i) {
            switch (s.draw(9)) {
                case 0: case 1: case 2:
                    if (!live.empty()) {
                        auto r = live.front();
                        r.verify("before it was released");
                        res.deallocate(r.p, r.n, r.al);
                        live.erase(live.begin());
                        ++popped;
                        while (!cps.empty() && cps.front().upto <= popped) cps.erase(cps.begin());
                        for (auto const& o : live) o.verify("by releasing an older one");
                        if (!live.empty()) s.nontrivial();
                    }
                    break;
                case 3:
                    if (pushed > popped && (cps.empty() || cps.back().upto < pushed)) cps.push_back({res.get_checkpoint(), pushed});
                    break;
                case 4:
                    if (!cps.empty()) {
                        auto k = s.idx(cps.size());
                        auto cp = cps[k];
                        res.deallocate_before(cp.cp);
                        while (popped < cp.upto) { live.erase(live.begin()); ++popped; }
                        cps.erase(cps.begin(), cps.begin() + static_cast<std::ptrdiff_t>(k) + 1);
                        for (auto const& o : live) o.verify("by releasing up to a point");
                        if (!live.empty()) s.nontrivial();
                    }
                    break;
                case 5:
                    if (s.chance(20)) {
                        // no checkpoint is outstanding while a begun page is unused
                        if (cps.empty() && res.count_pages()) res.end_current_page();
                        break;
                    }
                    [[fallthrough]];
                default:
                    allocate(s, res, live, gen_bytes(s), gen_align(s));
                    ++pushed;
            }
        }
        if (s.flip()) {
            while (!live.empty()) {
                auto r = live.front();
                r.verify("before it was released");
                res.deallocate(r.p, r.n, r.al);
                live.erase(live.begin());
            }
            PBT_CHECK(res.count_pages() <= 1, "pages are held although everything was released");
        }
        for (auto const& o : live) o.verify("at the end");
    }
    std::size_t f = free_pages(pool);
    std::vector<page_pool::page_info> got;
    std::set<void*> seen;
    for (std::size_t i = 0; i < f; ++i) {
        got.push_back(pool.acquire_page());
        PBT_CHECK(seen.insert(got.back().address()).second, "the pool holds a page twice");
    }
    for (auto& g : got) pool.release_page(g);
}

template <std::size_t B>
static void block_case(Src& s) {
    page_pool pool{};
    {
        memory::block_memory_resource<B> res{pool, s.flip()};
        std::vector<Region> live;
        bool ended = false;  // a page given up while empty stays until the end
        std::size_t n = 1 + s.size(60);
        for (std::size_t i = 0; i < n; ++i) {
            switch (s.draw(9)) {
                case 0: case 1: case 2: case 3:
                    if (!live.empty()) {
                        auto k = s.idx(live.size());
                        auto r = live[k];
                        r.verify("before it was released");
                        live.erase(live.begin() + static_cast<std::ptrdiff_t>(k));
                        res.deallocate(r.p, r.n, r.al);
                        for (auto const& o : live) o.verify("by releasing another one");
                        s.nontrivial();
                    }
                    break;
                case 4: if (s.chance(30)) { res.end_current_page(); ended = true; break; } [[fallthrough]];
                case 5:
                    if (s.chance(20)) {
                        PBT_CHECK((throws<std::bad_alloc>([&] { (void)res.allocate(1, B); })), "alignment ", B, " was accepted");
                        break;
                    }
                    [[fallthrough]];
                default: {
                    std::size_t al = std::size_t{1} << s.draw(12);
                    while (al > B / 2) al /= 2;
                    std::size_t sz = gen_bytes(s);
                    if (s.chance(30)) sz = B * (1 + s.idx(3)) - s.idx(3);
                    if (sz > page_size) sz = page_size;
                    if (sz + al > page_size) al = 1;
                    auto rem = res.page_remaining(al);
                    auto before = res.count_pages();
                    allocate(s, res, live, sz, al, false);
                    if (rem != memory::paged_memory_resource::unknown_size) {
                        if (sz <= rem) PBT_EQ(res.count_pages(), before, sz, " bytes with ", rem, " remaining took another page");
                        else PBT_EQ(res.count_pages(), before + 1, sz, " bytes with ", rem, " remaining");
                    } else {
                        PBT_EQ(res.count_pages(), before + 1);
                    }
                }
            }
        }
        bool all = s.flip();
        if (all) {
            while (!live.empty()) {
                auto k = s.idx(live.size());
                auto r = live[k];
                r.verify("before it was released");
                live.erase(live.begin() + static_cast<std::ptrdiff_t>(k));
                res.deallocate(r.p, r.n, r.al);
            }
            if (!ended) PBT_CHECK(res.count_pages() <= 1, res.count_pages(), " pages are held although everything was released");
        }
        for (auto const& o : live) o.verify("at the end");
    }
    std::size_t f = free_pages(pool);
    std::vector<page_pool::page_info> got;
    std::set<void*> seen;
    for (std::size_t i = 0; i < f; ++i) {
        got.push_back(pool.acquire_page());
        PBT_CHECK(seen.insert(got.back().address()).second, "the pool holds a page twice");
    }
    for (auto& g : got) pool.release_page(g);
}
PBT_FACET(block, "block resource", "a region is released out of order", .quick = 6000, .hang_s = 60) {
    switch (s.draw(2)) {
        case 0: block_case<65536>(s); break;
        case 1: block_case<4096>(s); break;
        default: block_case<1048576>(s);
    }
}

// the bookkeeping of a single page
PBT_FACET(page_info, "bookkeeping of one page", "the page is filled and partly released", .quick = 30000, .hang_s = 60) {
    // addresses are only computed, never touched; a page starts at a multiple of 4096, not of every alignment
    auto base = std::uintptr_t{4096} * (1 + s.draw(3000));
    auto* head = reinterpret_cast<void*>(base);
    memory::details::page_allocation_info info{page_pool::page_info{head, 0}};
    PBT_CHECK(info.head().address() == head && info.empty(), "fresh page");
    bool wide = s.chance(30);
    std::size_t lower = 0, upper = 0;
    std::vector<std::pair<std::size_t, std::size_t>> live;  // offset,size oldest first
    std::vector<std::size_t> aligns;
    bool front_mode = s.flip();
    std::size_t n = 1 + s.size(40), rel = 0, full = 0;
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t al = std::size_t{1} << s.draw(wide ? 23 : 12);
        std::size_t next = (base + upper + al - 1) / al * al - base;
        PBT_EQ(info.remaining(al), page_size >= next ? page_size - next : 0, "alignment ", al, " used up to ", upper);
        if (s.chance(70) || live.empty()) {
            std::size_t sz = s.chance(30) ? info.remaining(al) + s.draw(2) : gen_bytes(s);
            if (sz == 0) sz = 1;
            void* p = info.try_allocate_back(sz, al);
            if (next + sz > page_size) {
                PBT_CHECK(p == nullptr, sz, " bytes at ", next, " were handed out");
                ++full;
            } else {
                PBT_EQ(reinterpret_cast<std::uintptr_t>(p), base + next, "address");
                if (lower == upper) lower = next;
                upper = next + sz;
                live.emplace_back(next, sz);
                aligns.push_back(al);
            }
        } else if (front_mode) {
            auto [o, sz] = live.front();
            auto a = aligns.front();
            if (s.chance(20) && live.size() > 1 && live[1].first >= lower + aligns[1]) {
                PBT_CHECK(!info.try_deallocate_front(reinterpret_cast<void*>(base + live[1].first), live[1].second, aligns[1]), "a younger region was released first");
            } else {
                PBT_CHECK(info.try_deallocate_front(reinterpret_cast<void*>(base + o), sz, a), "the oldest region is refused");
                lower = o + sz;
                live.erase(live.begin());
                aligns.erase(aligns.begin());
                ++rel;
            }
        } else {
            auto [o, sz] = live.back();
            if (s.chance(20)) {
                PBT_CHECK(!info.try_deallocate_back(reinterpret_cast<void*>(base + upper), 1 + s.draw(10), 1), "an unallocated region was released");
            } else {
                PBT_CHECK(info.try_deallocate_back(reinterpret_cast<void*>(base + o), sz, aligns.back()), "the youngest region is refused");
                upper = o;
                live.pop_back();
                aligns.pop_back();
                if (lower == upper) lower = upper = 0;
                ++rel;
            }
        }
        PBT_EQ(info.lower_bound_offset(), lower);
        PBT_EQ(info.upper_bound_offset(), upper);
        PBT_EQ(info.empty(), lower == upper);
        s.ops += 4;
    }
    if (rel && full) s.nontrivial();
    PBT_CHECK(!info.try_deallocate_front(reinterpret_cast<void*>(base - 8), 8, 8), "an address before the page was released");
    PBT_CHECK(!info.try_deallocate_back(reinterpret_cast<void*>(base - 8), 8, 8), "an address before the page was released");
}

PBT_FACET(pool_threads, "page pool shared by threads", "several threads take and return pages", .quick = 300, .hang_s = 60, .nondet = true, .fuzz = false) {
    page_pool pool{};
    std::size_t nt = 2 + s.idx(4), rounds = 5 + s.size(60);
    std::vector<u64> seeds;
    for (std::size_t i = 0; i < nt; ++i) seeds.push_back(s.any_u64() | 1);
    s.nontrivial();
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    for (std::size_t t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            u64 x = seeds[t];
            auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
            std::vector<std::pair<page_pool::page_info, u64>> mine;
            for (std::size_t i = 0; i < rounds; ++i) {
                if (mine.size() < 4 && (mine.empty() || rnd() % 2)) {
                    auto p = pool.acquire_page(rnd() % 8 == 0);
                    u64 tag = rnd();
                    auto* q = static_cast<volatile u64*>(p.address());
                    q[0] = tag;
                    q[page_size / 8 - 1] = ~tag;
                    mine.emplace_back(p, tag);
                } else {
                    std::size_t k = rnd() % mine.size();
                    auto* q = static_cast<volatile u64*>(mine[k].first.address());
                    if (q[0] != mine[k].second || q[page_size / 8 - 1] != ~mine[k].second) ++bad;
                    pool.release_page(mine[k].first);
                    mine.erase(mine.begin() + static_cast<std::ptrdiff_t>(k));
                }
            }
            for (auto& m : mine) {
                auto* q = static_cast<volatile u64*>(m.first.address());
                if (q[0] != m.second || q[page_size / 8 - 1] != ~m.second) ++bad;
                pool.release_page(m.first);
            }
        });
    }
    for (auto& t : ts) t.join();
    PBT_EQ(bad.load(), 0, "a page was held by two threads at once");
    ++s.ops;
}
