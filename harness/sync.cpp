// Waiting primitives: latch, waitable atomic, use counter. The harness owns the critical schedules.
#include <jogasaki/utils/latch.h>
#include <jogasaki/utils/use_counter.h>
#include <jogasaki/utils/waitable_atomic.h>

#include <atomic>
#include <memory>
#include <thread>
#include <vector>

#include "pbt.h"

using namespace jogasaki::utils;
using namespace std::chrono_literals;
using pbt::Src;

namespace {

// ---- latch: one thread, model of the documented states ----
PBT_FACET(f_latch_seq, "latch state sequence", "a wait after a release, and a reset", .quick = 12000, .fuzz = false) {
    bool rel = s.flip();
    latch l{rel};
    bool saw_w = false, saw_r = false;
    auto n = 1 + s.size(12);
    for (std::size_t i = 0; i < n; ++i) {
        switch (s.draw(3)) {
            case 0: {
                if (rel) {
                    s.note("wait (released)");
                    l.wait();  // must not block
                    saw_w = true;
                } else {
                    s.note("wait with time-out (not released)");
                    auto d = std::chrono::microseconds(s.draw(60));
                    auto t0 = std::chrono::steady_clock::now();
                    PBT_EQ(l.wait(d), false, "wait before release");
                    PBT_CHECK(std::chrono::steady_clock::now() - t0 >= d, "gave up before the time was over");
                }
                break;
            }
            case 1: {
                s.note("timed wait, released=", rel);
                PBT_EQ(l.wait(std::chrono::microseconds(rel ? 2000000 : s.draw(60))), rel);
                saw_w = saw_w || rel;
                break;
            }
            case 2:
                s.note("release");
                l.release();
                rel = true;
                break;
            default:
                s.note("reset");
                l.reset();
                saw_r = true;
                rel = false;
                break;
        }
        ++s.ops;
    }
    if (saw_w && saw_r) s.nontrivial();
}

void spin(unsigned n) {
    for (unsigned i = 0; i < n; ++i) {
        if (i % 64 == 63) std::this_thread::yield();
        else __builtin_ia32_pause();
    }
}

// ---- latch: two threads, many rounds over one object ----
PBT_FACET(f_latch_conc, "latch hand-over between two threads", "at least two rounds", .quick = 3000, .hang_s = 20, .nondet = true, .fuzz = false) {
    auto rounds = 1 + s.draw(7);
    struct R { unsigned a, b; bool timed; };
    std::vector<R> plan;
    for (u_int64_t i = 0; i < rounds; ++i) plan.push_back({static_cast<unsigned>(s.draw(400)), static_cast<unsigned>(s.draw(400)), s.flip()});
    if (rounds > 1) s.nontrivial();
    latch go{}, done{};
    int data = 0, seen = 0;
    std::string err;
    std::thread t([&] {
        for (std::size_t i = 0; i < plan.size(); ++i) {
            spin(plan[i].a);
            if (plan[i].timed) {
                if (!go.wait(15s)) {
                    err = "timed wait expired although the latch was released";
                    return;
                }
            } else {
                go.wait();
            }
            if (data != static_cast<int>(i) + 1) {
                err = "waiter resumed before the release of its round";
            }
            go.reset();
            seen = static_cast<int>(i) + 1;
            done.release();
        }
    });
    for (std::size_t i = 0; i < plan.size(); ++i) {
        spin(plan[i].b);
        data = static_cast<int>(i) + 1;
        go.release();
        done.wait();
        if (seen != static_cast<int>(i) + 1 && err.empty()) err = "second latch opened early";
        done.reset();
    }
    t.join();
    PBT_CHECK(err.empty(), err);
    s.ops += 2 * plan.size();
}

PBT_FACET(f_latch_many, "a release frees every waiter of a latch", "at least two waiters", .quick = 400, .hang_s = 20, .nondet = true, .fuzz = false) {
    auto nw = 1 + s.draw(4);
    bool late = s.chance(25);  // release while they are still arriving
    std::vector<bool> timed;
    for (u_int64_t i = 0; i < nw; ++i) timed.push_back(s.chance(30));
    if (nw > 1) s.nontrivial();
    latch l{};
    std::atomic<int> wrong{0}, in{0};
    int data = 0;
    std::vector<std::thread> ts;
    for (u_int64_t i = 0; i < nw; ++i) {
        bool tm = timed[i];
        ts.emplace_back([&, tm] {
            ++in;
            if (tm) {
                if (!l.wait(15s)) ++wrong;
            } else {
                l.wait();
            }
            if (data != 1) ++wrong;
        });
    }
    if (!late) {
        while (in.load() < static_cast<int>(nw)) std::this_thread::yield();
        std::this_thread::sleep_for(2ms);
    }
    data = 1;
    l.release();
    for (auto& t : ts) t.join();
    PBT_EQ(wrong.load(), 0);
    l.wait();  // stays released
    s.ops += nw;
}

// ---- waitable atomic: sequential model ----
template <class T>
void wa_seq(Src& s) {
    T model{static_cast<T>(s.draw(3))};
    waitable_atomic<T> w{model};
    auto n = 1 + s.size(14);
    for (std::size_t i = 0; i < n; ++i) {
        T v = static_cast<T>(s.draw(3));
        switch (s.draw(7)) {
            case 0: w.store(v); model = v; break;
            case 1: w = v; model = v; break;
            case 2: PBT_EQ(w.load(), model); break;
            case 3: PBT_EQ(static_cast<T>(w), model); break;
            case 4: {
                T e = static_cast<T>(s.draw(3)), e0 = e;
                bool r = w.compare_exchange_strong(e, v);
                PBT_EQ(r, e0 == model);
                if (r) model = v;
                else PBT_EQ(e, model);
                s.nontrivial();
                break;
            }
            case 5: {
                T e = static_cast<T>(s.draw(3)), e0 = e;
                bool r = w.compare_exchange_weak(e, v);
                if (r) {
                    PBT_EQ(e0, model);
                    model = v;
                } else {
                    PBT_EQ(e, model);
                }
                break;
            }
            case 6: {
                if (s.flip()) w.notify_one();
                else w.notify_all();
                auto d = std::chrono::microseconds(v == model ? s.draw(50) : 1000000);
                auto t0 = std::chrono::steady_clock::now();
                PBT_EQ(w.wait_for(d, v), v != model);
                if (v == model) PBT_CHECK(std::chrono::steady_clock::now() - t0 >= d, "gave up before the time was over");
                break;
            }
            default:
                if (v != model) w.wait(v);  // already different: returns at once
                break;
        }
        PBT_EQ(w.load(), model);
        ++s.ops;
    }
}

PBT_FACET(f_wa_seq, "waitable atomic operations", "contains a compare-and-exchange", .quick = 12000, .fuzz = false) {
    switch (s.draw(2)) {
        case 0: wa_seq<int>(s); break;
        case 1: wa_seq<std::uint64_t>(s); break;
        default: wa_seq<signed char>(s); break;
    }
}

// ---- waitable atomic: the update and its notification arrive exactly between the waiter's check and its sleep ----
struct probe {
    int v;
    static std::atomic<int> armed;      // the waiter's comparison number at which to let the notifier go
    static std::atomic<bool> go;
    static thread_local bool is_waiter;
    static unsigned pause;
    friend bool operator!=(probe const& a, probe const& b) {
        if (is_waiter && armed.load() > 0 && armed.fetch_sub(1) == 1) {
            go.store(true);
            auto until = std::chrono::steady_clock::now() + std::chrono::microseconds(pause);
            while (std::chrono::steady_clock::now() < until) std::this_thread::yield();
        }
        return a.v != b.v;
    }
    friend bool operator==(probe const& a, probe const& b) { return !(a != b); }
};
std::atomic<int> probe::armed{0};
std::atomic<bool> probe::go{false};
thread_local bool probe::is_waiter = false;
unsigned probe::pause = 0;

PBT_FACET(f_wa_lost, "no lost wake-up at the check-then-sleep boundary", "every case", .quick = 1200, .hang_s = 20, .nondet = true, .fuzz = false) {
    s.nontrivial();
    waitable_atomic<probe> w{probe{0}};
    int spurious = static_cast<int>(s.draw(2));
    bool all = s.flip();
    bool timed = s.flip();
    bool cas = s.flip();
    probe::pause = static_cast<unsigned>(s.pick({300, 100, 1000, 2000}));
    probe::go = false;
    probe::armed = spurious + 1;
    s.note("notify_all=", all, " timed=", timed, " comparisons before the update=", spurious + 1);
    std::atomic<int> result{-1};
    std::thread waiter([&] {
        probe::is_waiter = true;
        if (timed) {
            result = w.wait_for(15s, probe{0}) ? 1 : 0;
        } else {
            w.wait(probe{0});
            result = 1;
        }
    });
    std::thread notifier([&] {
        while (!probe::go.load()) {
            if (spurious > 0) {
                if (all) w.notify_all();  // wakes the waiter without a change
                else w.notify_one();
            }
            std::this_thread::yield();
        }
        if (cas) {
            auto e = probe{0};
            w.compare_exchange_strong(e, probe{1});
        } else {
            w.store(probe{1});
        }
        if (all) w.notify_all();
        else w.notify_one();
    });
    notifier.join();
    auto until = std::chrono::steady_clock::now() + 4s;
    while (result.load() < 0 && std::chrono::steady_clock::now() < until) std::this_thread::sleep_for(50us);
    int r = result.load();
    if (r < 0) {  // unblock it before reporting
        w.notify_all();
    }
    waiter.join();
    PBT_CHECK(r == 1, "the waiter slept through the update");
    ++s.ops;
}

PBT_FACET(f_wa_many, "every waiter leaves after notify_all", "at least two waiters", .quick = 1500, .hang_s = 20, .nondet = true, .fuzz = false) {
    auto nw = 1 + s.draw(3);
    unsigned d = static_cast<unsigned>(s.draw(600));
    std::vector<std::pair<unsigned, bool>> plan;
    for (u_int64_t i = 0; i < nw; ++i) plan.emplace_back(static_cast<unsigned>(s.draw(600)), s.flip());
    if (nw > 1) s.nontrivial();
    waitable_atomic<int> w{5};
    std::atomic<int> wrong{0};
    std::vector<std::thread> ts;
    for (auto& p : plan) {
        ts.emplace_back([&w, &wrong, p] {
            spin(p.first);
            if (p.second) {
                if (!w.wait_for(15s, 5)) ++wrong;
            } else {
                w.wait(5);
            }
            if (w.load() != 6) ++wrong;
        });
    }
    spin(d);
    w.store(6);
    w.notify_all();
    for (auto& t : ts) t.join();
    PBT_EQ(wrong.load(), 0);
    s.ops += nw;
}

PBT_FACET(f_wa_pingpong, "two threads alternate through notify_one", "at least four turns", .quick = 1500, .hang_s = 20, .nondet = true, .fuzz = false) {
    auto turns = 2 + s.draw(40);
    unsigned a = static_cast<unsigned>(s.draw(200)), b = static_cast<unsigned>(s.draw(200));
    if (turns >= 4) s.nontrivial();
    waitable_atomic<bool> w{false};
    long shared = 0;
    std::thread t([&] {
        for (u_int64_t i = 0; i < turns; ++i) {
            w.wait(false);
            ++shared;
            spin(a);
            w.store(false);
            w.notify_one();
        }
    });
    bool ok = true;
    for (u_int64_t i = 0; i < turns; ++i) {
        long before = shared;
        spin(b);
        w.store(true);
        w.notify_one();
        w.wait(true);
        if (shared != before + 1) ok = false;
    }
    t.join();
    PBT_CHECK(ok && shared == static_cast<long>(turns), "turns were skipped or repeated: ", shared, " of ", turns);
    s.ops += turns;
}

// ---- use counter ----
PBT_FACET(f_use, "use counter equals the number of sharing copies", "sequence with a move or reset of a shared counter", .quick = 40000) {
    struct E { std::unique_ptr<use_counter> c; int g; };
    std::vector<E> v;
    int next = 0;
    auto fresh = [&] { return next++; };
    v.push_back({std::make_unique<use_counter>(), fresh()});
    auto size_of = [&](int g) {
        std::size_t n = 0;
        for (auto& e : v) n += e.g == g;
        return n;
    };
    auto n = 1 + s.size(24);
    for (std::size_t i = 0; i < n; ++i) {
        auto k = v.empty() ? 0 : s.draw(6);
        auto x = v.empty() ? 0 : s.idx(v.size());
        auto y = v.empty() ? 0 : s.idx(v.size());
        switch (k) {
            case 0: v.push_back({std::make_unique<use_counter>(), fresh()}); s.note("create"); break;
            case 1: v.push_back({std::make_unique<use_counter>(*v[x].c), v[x].g}); s.note("copy ", x); break;
            case 2: {
                if (size_of(v[x].g) > 1) s.nontrivial();
                auto g = v[x].g;
                auto c = std::make_unique<use_counter>(std::move(*v[x].c));
                v[x].g = fresh();
                v.push_back({std::move(c), g});
                s.note("move ", x);
                break;
            }
            case 3: *v[x].c = *v[y].c; v[x].g = v[y].g; s.note("assign ", x, " = ", y); break;
            case 4: {
                if (x == y) break;
                if (size_of(v[y].g) > 1) s.nontrivial();
                *v[x].c = std::move(*v[y].c);
                v[x].g = v[y].g;
                v[y].g = fresh();
                s.note("move-assign ", x, " = ", y);
                break;
            }
            case 5:
                if (size_of(v[x].g) > 1) s.nontrivial();
                v[x].c->reset();
                v[x].g = fresh();
                s.note("reset ", x);
                break;
            default: v.erase(v.begin() + static_cast<long>(x)); s.note("destroy ", x); break;
        }
        for (std::size_t j = 0; j < v.size(); ++j) PBT_EQ(v[j].c->count(), size_of(v[j].g), "object ", j, " after step ", i);
        s.ops += v.size();
    }
}

PBT_FACET(f_use_conc, "use counter under concurrent copies", "every case", .quick = 1500, .nondet = true, .fuzz = false) {
    s.nontrivial();
    auto nt = 2 + s.draw(2);
    auto keep = s.draw(3);
    auto iter = 20 + s.draw(200);
    use_counter base{};
    std::vector<std::vector<use_counter>> kept(nt);
    std::vector<std::thread> ts;
    for (u_int64_t t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            for (u_int64_t i = 0; i < iter; ++i) {
                use_counter c{base};
                use_counter d{std::move(c)};
                use_counter e{};
                e = d;
                if (i < keep) kept[t].push_back(e);
            }
        });
    }
    for (auto& t : ts) t.join();
    PBT_EQ(base.count(), 1 + nt * std::min<u_int64_t>(keep, iter));
    kept.clear();
    PBT_EQ(base.count(), 1U);
    s.ops += 2;
}

}  // namespace
