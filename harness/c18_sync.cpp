// C18: Mutex, Lock, Cond, Flag and Atomic under contention. Plain (non-atomic) payloads make a missing happens-before
// edge visible to ThreadSanitizer; owner words, wake-up accounting and a linearizability check judge the behaviour.
#include "mon.h"
#include <linux/futex.h>
#include <rpp/base.h>
#include <rpp/thread.h>
using namespace rpp;
using mon::fmt;
using mon::Rng;
using std::string;

static uint64_t tick() { return (uint64_t)__builtin_ia32_rdtsc(); }
static void jitter(Rng& r) {
    switch(r(12)) {
    case 0: sched_yield(); break;
    case 1: usleep((useconds_t)r(60)); break;
    case 2: for(volatile int i = 0, n = (int)r(300); i < n; i = i + 1) {} break;
    default: break;
    }
}

// ------------------------------------------------------------------ Mutex / Lock
static void mutex_stress(Rng& r, int rounds) {
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("mutex round %d", k);
        Thread::Mutex m;
        std::atomic<int> inside{0};
        uint64_t plain = 0, mirror[4] = {};
        int T = (int)r.range(2, 8), N = (int)r.range(20, 400);
        uint64_t seed = r.next();
        std::atomic<uint64_t> done{0}, failed_try{0};
        std::vector<std::vector<uint64_t>> order((size_t)T);
        std::vector<std::thread> ts;
        for(int t = 0; t < T; t++)
            ts.emplace_back([&, t] {
                Rng q(seed + (uint64_t)t);
                auto body = [&] {
                    if(inside.fetch_add(1, std::memory_order_relaxed) != 0) mon::violation("mutex.exclusion", "two threads inside one mutex");
                    uint64_t v = plain;
                    for(auto& x : mirror) if(x != v) mon::violation("mutex.visibility", "a write made under the lock is not visible under the next lock");
                    if(q.chance(5)) jitter(q);
                    plain = v + 1;
                    for(auto& x : mirror) x = v + 1;
                    order[(size_t)t].push_back(v);
                    inside.fetch_sub(1, std::memory_order_relaxed);
                };
                uint64_t ft = 0;
                for(int i = 0; i < N; i++) {
                    switch(q(4)) {
                    case 0: m.lock(); body(); m.unlock(); break;
                    case 1: { Thread::Lock l(m); body(); } break;
                    case 2: { // moved guard: exactly one release
                        Thread::Lock a(m);
                        body();
                        Thread::Lock b(rpp::move(a));
                        if(q.chance(30)) jitter(q);
                    } break;
                    default:
                        while(!m.try_lock()) { ft++; sched_yield(); }
                        body();
                        m.unlock();
                    }
                    if(q.chance(20)) jitter(q);
                    done++;
                }
                failed_try += ft;
            });
        for(auto& t : ts) t.join();
        MON_CHECK(plain == done, "mutex.exclusion", "%llu of %llu increments survived", (unsigned long long)plain, (unsigned long long)done.load());
        MON_CHECK(m.try_lock(), "mutex.trylock", "try_lock fails on a free mutex");
        m.unlock();
        std::vector<int> owner(plain, -1);
        for(int t = 0; t < T; t++) for(auto v : order[(size_t)t]) if(v < plain) owner[v] = t;
        uint64_t h = 0, hand = 0;
        for(size_t i = 0; i < owner.size(); i++) { h = mon::mix(h, (uint64_t)owner[i]); if(i && owner[i] != owner[i - 1]) hand++; }
        mon::distinct(h);
        mon::count("critical_sections", done);
        mon::count("ownership_changes", hand);
        mon::count("failed_try_locks", failed_try);
        mon::eval(done);
    }
}
// Deterministic ownership script: which thread holds what, what try_lock must answer.
static void mutex_script(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("mutex script %d", c);
        Thread::Mutex a, b;
        Thread::Mutex* ms[2] = {&a, &b};
        bool held[2] = {false, false};
        auto probe = [&](int i) { // from another thread
            bool got = false;
            std::thread([&] { got = ms[i]->try_lock(); if(got) ms[i]->unlock(); }).join();
            MON_CHECK(got == !held[i], "mutex.trylock", "try_lock from another thread returned %d while the mutex is %s", (int)got, held[i] ? "held" : "free");
            mon::eval();
        };
        for(int s = 0; s < 12; s++) {
            int i = (int)r(2);
            switch(r(6)) {
            case 0: if(!held[i] && !held[1 - i]) { ms[i]->lock(); held[i] = true; } break;
            case 1: if(held[i]) { ms[i]->unlock(); held[i] = false; } break;
            case 2: if(!held[i]) { MON_CHECK(ms[i]->try_lock(), "mutex.trylock", "try_lock fails on a free mutex"); held[i] = true; } break;
            case 3: if(!held[i] && !held[1 - i]) { // guard chain by move construction and assignment
                    {
                        Thread::Lock l(*ms[i]);
                        held[i] = true;
                        probe(i);
                        Thread::Lock k(rpp::move(l));
                        probe(i);
                        int j = 1 - i;
                        if(j > i && r.chance(60)) {
                            Thread::Lock n(*ms[j]);
                            held[j] = true;
                            n = rpp::move(k); // n releases its own mutex and takes over k's
                            held[j] = false;
                            probe(j);
                            probe(i);
                        }
                    }
                    held[i] = false;
                    probe(i);
                } break;
            case 4: if(!held[0] && !held[1]) { // a guard takes over the mutex of one that dies right after
                    {
                        Thread::Lock n(a);
                        held[0] = true;
                        n = Thread::Lock(b);
                        held[0] = false;
                        held[1] = true;
                        probe(0);
                        probe(1);
                        Thread::Lock m(rpp::move(n));
                        { Thread::Lock o(rpp::move(m)); m = rpp::move(o); }
                        probe(1);
                    }
                    held[1] = false;
                    probe(1);
                    mon::count("guard_handovers");
                } break;
            default: probe(i);
            }
        }
        for(int i = 0; i < 2; i++) if(held[i]) ms[i]->unlock();
        mon::distinct(mon::mix(0x5c, (uint64_t)c));
    }
}
// ------------------------------------------------------------------ Cond
// A mutex held for long, and long waits on a flag and a condition: whoever waits must keep waiting.
static void long_holds(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("long hold %d", c);
        Thread::Mutex m, cm;
        Thread::Cond cond;
        Thread::Flag flag;
        bool ready = false;
        std::atomic<bool> released{false}, fired{false};
        int inside = 0, n = (int)r.range(1, 6);
        u64 hold = r.range(150, 500);
        m.lock();
        std::vector<std::thread> th;
        for(int i = 0; i < n; i++) {
            th.emplace_back([&] {
                Thread::Lock l(m);
                if(!released) mon::violation("mutex.exclusion", "a mutex held elsewhere for %llu ms was acquired", (unsigned long long)hold);
                if(inside++ != 0) mon::violation("mutex.exclusion", "two threads inside after a long hold");
                inside--;
            });
            th.emplace_back([&] { flag.block(); if(!fired) mon::violation("flag.early", "a flag not signalled for %llu ms stopped blocking", (unsigned long long)hold); });
            th.emplace_back([&] { Thread::Lock l(cm); while(!ready) cond.wait(cm); if(!fired) mon::violation("cond.early", "a condition not met for %llu ms was seen", (unsigned long long)hold); });
            if(m.try_lock()) { mon::violation("mutex.exclusion", "try_lock succeeded on a held mutex"); break; }
        }
        usleep((useconds_t)(hold * 1000));
        released = true;
        m.unlock();
        fired = true;
        flag.signal();
        { Thread::Lock l(cm); ready = true; }
        cond.broadcast();
        for(auto& t : th) t.join();
        mon::eval((uint64_t)n * 3);
        mon::count("long_waits", (uint64_t)n * 3);
    }
}
static void cond_queue(Rng& r, int rounds) { // bounded queue: every item delivered exactly once, nobody sleeps forever
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("cond queue round %d", k);
        Thread::Mutex m;
        Thread::Cond not_empty, not_full;
        std::deque<uint64_t> q;
        size_t cap = r.range(1, 4);
        int P = (int)r.range(1, 4), C = (int)r.range(1, 4), N = (int)r.range(10, 150);
        bool closed = false;
        uint64_t seed = r.next();
        bool bcast = r.chance(30);
        std::vector<std::vector<uint64_t>> got((size_t)C);
        std::vector<std::thread> ps, cs;
        uint64_t waits = 0; // guarded by m
        for(int p = 0; p < P; p++)
            ps.emplace_back([&, p] {
                Rng w(seed + (uint64_t)p);
                for(int i = 0; i < N; i++) {
                    m.lock();
                    while(q.size() >= cap) { waits++; not_full.wait(m); }
                    q.push_back((uint64_t)p << 32 | (uint64_t)i);
                    if(bcast) not_empty.broadcast(); else not_empty.signal();
                    m.unlock();
                    if(w.chance(10)) jitter(w);
                }
            });
        for(int c = 0; c < C; c++)
            cs.emplace_back([&, c] {
                Rng w(seed * 3 + (uint64_t)c);
                for(;;) {
                    Thread::Lock l(m);
                    while(q.empty() && !closed) { waits++; not_empty.wait(m); }
                    if(q.empty()) return;
                    got[(size_t)c].push_back(q.front());
                    q.pop_front();
                    if(bcast) not_full.broadcast(); else not_full.signal();
                    if(w.chance(5)) jitter(w);
                }
            });
        for(auto& t : ps) t.join();
        m.lock();
        closed = true;
        not_empty.broadcast();
        m.unlock();
        for(auto& t : cs) t.join();
        std::map<uint64_t, int> n;
        uint64_t h = 0;
        for(auto& g : got) for(auto v : g) { n[v]++; h = mon::mix(h, v); }
        bool ok = n.size() == (size_t)(P * N);
        for(auto& [v, c] : n) ok &= c == 1;
        MON_CHECK(ok, "cond.exactly-once", "%zu distinct items of %d received", n.size(), P * N);
        mon::eval((uint64_t)(P * N));
        mon::count("cond_waits", waits);
        mon::distinct(h);
    }
}
static void cond_wakeups(Rng& r, int rounds) { // signal wakes at least one waiter, broadcast all; wait re-acquires the mutex
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("cond wake-up round %d", k);
        Thread::Mutex m;
        Thread::Cond c;
        int W = k % 60 == 30 ? (int)r.range(17, 60) : (int)r.range(1, 6);
        int waiting = 0, woken = 0, tickets = 0; // guarded by m
        bool all = false;
        std::atomic<int> inside{0};
        std::vector<std::thread> ts;
        for(int i = 0; i < W; i++)
            ts.emplace_back([&] {
                Thread::Lock l(m);
                waiting++;
                while(!all && tickets == 0) {
                    c.wait(m);
                    if(inside.fetch_add(1, std::memory_order_relaxed) != 0) mon::violation("cond.mutex", "wait returned without holding the mutex");
                    sched_yield();
                    inside.fetch_sub(1, std::memory_order_relaxed);
                }
                if(tickets > 0) tickets--;
                woken++;
            });
        for(;;) { m.lock(); bool ready = waiting == W; m.unlock(); if(ready) break; sched_yield(); }
        int singles = (int)r(W + 1);
        for(int i = 1; i <= singles; i++) {
            m.lock();
            tickets++;
            c.signal();
            m.unlock();
            for(;;) { m.lock(); int w = woken; m.unlock(); if(w >= i) break; usleep(20); }
        }
        m.lock();
        all = true;
        c.broadcast();
        m.unlock();
        for(auto& t : ts) t.join();
        MON_CHECK(woken == W, "cond.wakeup", "%d of %d waiters proceeded", woken, W);
        mon::eval((uint64_t)W);
        mon::count("cond_signals", (uint64_t)singles + 1);
    }
}
// ------------------------------------------------------------------ Flag
static void flag_rounds(Rng& r, int rounds) {
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("flag round %d", k);
        Thread::Flag f;
        uint64_t payload_[3] = {0, 0, 0}; // plain: published by signal
        auto& payload = mon::opaque(payload_);
        std::atomic<bool> signalled{false};
        std::atomic<int> entered{0}, left{0};
        int W = k % 150 == 75 ? (int)r.range(17, 80) : (int)r.range(1, 7); // now and then a crowd
        bool late = r.chance(70), stray = r.chance(50);
        int extra = (int)r(3);
        uint64_t seed = r.next();
        uint64_t val = r.next() | 1;
        MON_CHECK(!f.ready(), "flag.early", "a new flag is ready");
        std::vector<std::thread> ts;
        for(int i = 0; i < W; i++)
            ts.emplace_back([&, i] {
                Rng q(seed + (uint64_t)i);
                if(q.chance(40)) jitter(q);
                entered++;
                if(q.chance(40)) { // poll
                    while(!f.ready()) sched_yield();
                } else
                    f.block();
                if(!signalled.load(std::memory_order_relaxed)) mon::violation("flag.early", "a waiter proceeded before signal was called");
                for(auto p : payload) if(p != val) mon::violation("flag.visibility", "a write made before signal is not visible after block");
                if(!f.ready()) mon::violation("flag.sticky", "ready() is false after block returned");
                f.block();
                left++;
            });
        if(late) while(entered < W) sched_yield();
        if(late && r.chance(50)) usleep(300); // give them time to sleep in the kernel
        if(stray) // a wake-up meant for earlier memory at this address is a legal spurious wake-up
            for(int i = 0; i < 3; i++) { syscall(SYS_futex, (void*)&f, FUTEX_WAKE, 1, nullptr, nullptr, 0); sched_yield(); }
        for(auto& p : payload) p = val;
        signalled.store(true, std::memory_order_relaxed);
        f.signal();
        for(int i = 0; i < extra; i++) f.signal();
        for(auto& t : ts) t.join();
        MON_CHECK(left == W, "flag.wakeup", "%d of %d waiters proceeded", left.load(), W);
        MON_CHECK(f.ready(), "flag.sticky", "a signalled flag is not ready");
        mon::eval((uint64_t)W);
        mon::distinct(mon::mix((uint64_t)W, mon::mix(late, stray) ^ (uint64_t)extra));
        mon::count("flag_waiters", (uint64_t)W);
    }
}
// ------------------------------------------------------------------ Atomic
struct AOp { int kind; int64_t a, b, ret; uint64_t t0, t1; int th; }; // 0 load 1 incr 2 decr 3 exchange 4 cas
static bool apply(int64_t& v, const AOp& o) {
    switch(o.kind) {
    case 0: return o.ret == v;
    case 1: v = (int64_t)((uint64_t)v + 1); return o.ret == v;
    case 2: v = (int64_t)((uint64_t)v - 1); return o.ret == v;
    case 3: { int64_t old = v; v = o.a; return o.ret == old; }
    default: { int64_t old = v; if(v == o.a) v = o.b; return o.ret == old; }
    }
}
// Wing-Gong search with memoisation over (set of completed operations, value).
static bool linearizable(const std::vector<AOp>& ops, int64_t init, int64_t fin) {
    std::set<std::pair<uint64_t, int64_t>> seen;
    size_t n = ops.size();
    std::function<bool(uint64_t, int64_t)> go = [&](uint64_t done, int64_t v) {
        if(done == (n == 64 ? ~0ull : (1ull << n) - 1)) return v == fin;
        if(!seen.insert({done, v}).second) return false;
        uint64_t min_end = ~0ull;
        for(size_t i = 0; i < n; i++) if(!(done >> i & 1)) min_end = std::min(min_end, ops[i].t1);
        for(size_t i = 0; i < n; i++) {
            if(done >> i & 1 || ops[i].t0 > min_end) continue;
            int64_t w = v;
            if(apply(w, ops[i]) && go(done | 1ull << i, w)) return true;
        }
        return false;
    };
    return go(0, init);
}
static void atomic_lin(Rng& r, int rounds) {
    struct Worker { std::atomic<int> go{0}; };
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("atomic linearizability round %d", k);
        int T = (int)r.range(2, 4), N = (int)r.range(3, 8);
        int64_t init = r.chance(10) ? INT64_MIN + 3 : r.range(-2, 2);
        Thread::Atomic a{init};
        std::atomic<int> start{0};
        std::vector<std::vector<AOp>> hist((size_t)T);
        uint64_t seed = r.next();
        std::vector<std::thread> ts;
        for(int t = 0; t < T; t++)
            ts.emplace_back([&, t] {
                Rng q(seed + (uint64_t)t);
                std::vector<AOp> h;
                for(int i = 0; i < N; i++) h.push_back(AOp{(int)q(5), init + q.range(-2, 2), init + q.range(-2, 2), 0, 0, 0, t});
                start++;
                while(start < T) {}
                for(auto& o : h) {
                    o.t0 = tick();
                    __asm__ volatile("lfence" ::: "memory");
                    switch(o.kind) {
                    case 0: o.ret = a.load(); break;
                    case 1: o.ret = a.incr(); break;
                    case 2: o.ret = a.decr(); break;
                    case 3: o.ret = a.exchange(o.a); break;
                    default: o.ret = a.compare_and_swap(o.a, o.b);
                    }
                    __asm__ volatile("lfence" ::: "memory");
                    o.t1 = tick();
                }
                hist[(size_t)t] = h;
            });
        for(auto& t : ts) t.join();
        std::vector<AOp> all;
        for(auto& h : hist) all.insert(all.end(), h.begin(), h.end());
        int64_t fin = a.load();
        if(!linearizable(all, init, fin)) {
            std::sort(all.begin(), all.end(), [](auto& x, auto& y) { return x.t0 < y.t0; });
            string s;
            static const char* nm[] = {"load", "incr", "decr", "exchange", "cas"};
            for(auto& o : all) s += fmt("T%d %s(%lld,%lld)=%lld; ", o.th, nm[o.kind], (long long)o.a, (long long)o.b, (long long)o.ret);
            mon::violation("atomic.linearizable", "no total order explains (init %lld, final %lld): %s", (long long)init, (long long)fin, s.c_str());
        }
        uint64_t h = 0, overlap = 0;
        for(auto& o : all) { h = mon::mix(h, mon::mix((uint64_t)o.kind, (uint64_t)(o.ret - init))); for(auto& p : all) overlap += p.th != o.th && p.t0 < o.t1 && o.t0 < p.t1; }
        mon::distinct(h);
        mon::count("overlapping_pairs", overlap / 2);
        mon::eval(all.size());
    }
}
static void atomic_stress(Rng& r, int rounds) {
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("atomic stress round %d", k);
        int T = (int)r.range(2, 8);
        int64_t N = r.range(200, 3000);
        uint64_t seed = r.next();
        { // incr hands out each value once; decr brings it back; cas adds exactly one on success
            Thread::Atomic up{0}, down{T * N}, cas{0}, bal{5};
            std::vector<std::vector<int64_t>> a((size_t)T), b((size_t)T), c((size_t)T);
            std::vector<std::thread> ts;
            for(int t = 0; t < T; t++)
                ts.emplace_back([&, t] {
                    Rng q(seed + (uint64_t)t);
                    for(int64_t i = 0; i < N; i++) {
                        a[(size_t)t].push_back(up.incr());
                        b[(size_t)t].push_back(down.decr());
                        for(;;) { int64_t v = cas.load(); if(cas.compare_and_swap(v, v + 1) == v) { c[(size_t)t].push_back(v + 1); break; } }
                        bal.incr();
                        bal.decr();
                    }
                });
            for(auto& t : ts) t.join();
            auto distinct_to = [&](std::vector<std::vector<int64_t>>& v, int64_t lo, const char* what) {
                std::vector<char> seen((size_t)(T * N), 0);
                for(auto& x : v) for(auto i : x) { if(i < lo || i >= lo + T * N || seen[(size_t)(i - lo)]++) { mon::violation("atomic.unique", "%s returned %lld twice or out of range", what, (long long)i); return; } }
            };
            distinct_to(a, 1, "incr");
            distinct_to(b, 0, "decr");
            distinct_to(c, 1, "compare_and_swap");
            MON_CHECK(up.load() == T * N && down.load() == 0 && cas.load() == T * N && bal.load() == 5, "atomic.final", "final values %lld %lld %lld %lld", (long long)up.load(), (long long)down.load(), (long long)cas.load(), (long long)bal.load());
            MON_CHECK((u8)up.load<u8>() == (u8)(T * N), "atomic.load-as", "load<u8>");
            mon::eval((uint64_t)(T * N * 5));
        }
        { // exchange conserves tokens
            Thread::Atomic slot{0};
            std::vector<int64_t> sum((size_t)T), kept((size_t)T);
            std::vector<std::thread> ts;
            for(int t = 0; t < T; t++)
                ts.emplace_back([&, t] {
                    for(int64_t i = 1; i <= N; i++) { int64_t v = (int64_t)t * N + i; sum[(size_t)t] += v; kept[(size_t)t] += slot.exchange(v); }
                });
            for(auto& t : ts) t.join();
            int64_t in = 0, out = slot.load();
            for(int t = 0; t < T; t++) in += sum[(size_t)t], out += kept[(size_t)t];
            MON_CHECK(in == out, "atomic.exchange", "exchange lost or duplicated a token (%lld in, %lld out)", (long long)in, (long long)out);
            mon::eval((uint64_t)(T * N));
        }
        { // publication: a plain write before any update is visible to a thread that observes the update
            static const int M = 64;
            struct Cell { uint64_t plain = 0; Thread::Atomic a; };
            std::vector<Cell> cells((size_t)M * 3);
            std::thread w([&] {
                Rng q(seed);
                for(size_t i = 0; i < cells.size(); i++) {
                    cells[i].plain = i + 1;
                    if(i % 3 == 0) cells[i].a.incr();
                    else if(i % 3 == 1) cells[i].a.exchange(1);
                    else (void)cells[i].a.compare_and_swap(0, 1);
                    if(q.chance(10)) jitter(q);
                }
            });
            std::thread rd([&] {
                for(size_t i = 0; i < cells.size(); i++) {
                    auto& c = cells[i];
                    switch(i % 4) {
                    case 0: while(c.a.load() == 0) {} break;
                    case 1: while(c.a.compare_and_swap(7, 7) == 0) {} break;
                    case 2: while(c.a.exchange(c.a.load() ? 1 : 0) == 0) { if(c.a.load()) break; } break;
                    default: while(c.a.load<u32>() == 0) {} break;
                    }
                    if(c.plain != i + 1) mon::violation("atomic.publish", "the plain write before the update is not visible after observing it");
                }
            });
            w.join();
            rd.join();
            mon::eval(cells.size());
        }
    }
    // store buffering: two threads each publish with one update and read the other with a load; both cannot miss
    if(mon::violations()) return;
    uint64_t both = 0, outcomes[4] = {};
    for(int how = 0; how < 3; how++) {
        int N = (int)mon::n(3000, 200000);
        std::vector<Thread::Atomic> x((size_t)N), y((size_t)N);
        std::vector<int64_t> rx((size_t)N), ry((size_t)N);
        std::atomic<int> ready{0};
        auto side = [&](std::vector<Thread::Atomic>& mine, std::vector<Thread::Atomic>& other, std::vector<int64_t>& res) {
            ready++;
            while(ready < 2) {}
            for(size_t i = 0; i < (size_t)N; i++) {
                if(how == 0) mine[i].exchange(1);
                else if(how == 1) mine[i].incr();
                else (void)mine[i].compare_and_swap(0, 1);
                res[i] = other[i].load();
            }
        };
        std::thread t1([&] { side(x, y, ry); }), t2([&] { side(y, x, rx); });
        t1.join();
        t2.join();
        for(size_t i = 0; i < (size_t)N; i++) { outcomes[rx[i] * 2 + ry[i]]++; both += !rx[i] && !ry[i]; }
        mon::eval((uint64_t)N);
    }
    MON_CHECK(both == 0, "atomic.order", "%llu times neither thread saw the other's update", (unsigned long long)both);
    mon::count("sb_outcome_01", outcomes[1]);
    mon::count("sb_outcome_10", outcomes[2]);
    mon::count("sb_outcome_11", outcomes[3]);
}
// ------------------------------------------------------------------ the rest of thread0.h
static void misc(Rng& r) {
    MON_CHECK(Thread::hardware_threads() == (u64)sysconf(_SC_NPROCESSORS_ONLN), "thread.hardware", "hardware_threads");
    u64 f = Thread::perf_frequency();
    for(int i = 0; i < 5; i++) {
        double w0 = mon::now();
        u64 c0 = Thread::perf_counter();
        usleep(3000);
        u64 c1 = Thread::perf_counter();
        double w1 = mon::now();
        double s = (double)(c1 - c0) / (double)f;
        MON_CHECK(s > 0.0029 && s <= w1 - w0 + 1e-6, "thread.perf-counter", "perf_counter advanced %g s over a 3 ms sleep", s);
        mon::eval();
    }
    u64 last = 0;
    for(int i = 0; i < 20000; i++) { u64 c = Thread::perf_counter(); MON_CHECK(c >= last, "thread.perf-counter", "perf_counter went backwards"); last = c; }
    for(u64 ms : {0, 1, 2, 5, 11}) {
        u64 c0 = Thread::perf_counter();
        Thread::sleep(ms);
        u64 el = Thread::perf_counter() - c0;
        MON_CHECK(el >= ms * 1000000, "thread.sleep", "sleep(%llu) returned after %llu ns", (unsigned long long)ms, (unsigned long long)el);
        mon::eval();
    }
    std::set<u64> ids;
    std::mutex mu;
    std::atomic<int> in{0};
    std::vector<std::thread> ts;
    for(int i = 0; i < 8; i++)
        ts.emplace_back([&] {
            u64 a = (u64)Thread::this_id();
            in++;
            while(in < 8) sched_yield();
            Thread::pause();
            std::lock_guard<std::mutex> g(mu);
            MON_CHECK(a == (u64)Thread::this_id(), "thread.id", "this_id changed within a thread");
            ids.insert(a);
        });
    for(auto& t : ts) t.join();
    ids.insert((u64)Thread::this_id());
    MON_CHECK(ids.size() == 9, "thread.id", "nine live threads have %zu ids", ids.size());
    (void)r;
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C18", "hash of the order in which threads owned the mutex, of consumed items, or of an atomic history's results");
    Rng r(mon::S().seed);
    if(mon::want("script")) mutex_script(r, (int)mon::n(200, 4000));
    if(mon::want("mutex")) mutex_stress(r, (int)mon::n(250, 6000));
    if(mon::want("holds")) long_holds(r, (int)mon::n(4, 60));
    if(mon::want("queue")) cond_queue(r, (int)mon::n(250, 6000));
    if(mon::want("wakeups")) cond_wakeups(r, (int)mon::n(250, 6000));
    if(mon::want("flag")) flag_rounds(r, (int)mon::n(1200, 30000));
    if(mon::want("lin")) atomic_lin(r, (int)mon::n(2500, 100000));
    if(mon::want("atomic")) atomic_stress(r, (int)mon::n(25, 500));
    if(mon::want("misc")) misc(r);
    Profile::finalize();
    return mon::finish();
}
