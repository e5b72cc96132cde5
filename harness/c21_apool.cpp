// C21: Async::Pool. Every suspension is a ticket: resumed exactly once, on a worker of that pool, with the job's earlier
// plain writes visible. Fork/join trees, bursts from many threads, hops between pools, idle wake-ups, teardown.
#include "mon.h"
#include <dirent.h>
#include <rpp/base.h>
#include <rpp/pool.h>
using namespace rpp;
using mon::fmt;
using mon::Rng;
using std::string;

static volatile long g_cpus = 0;
extern "C" long __real_sysconf(int);
// Sanitizer runtimes call sysconf before they are initialised: no instrumentation here.
extern "C" __attribute__((disable_sanitizer_instrumentation, no_sanitize("coverage"))) long __wrap_sysconf(int name) { // machines with fewer hardware threads
    if(name == _SC_NPROCESSORS_ONLN && g_cpus > 0) return g_cpus;
    return __real_sysconf(name);
}
// Condition variables may return without having been signalled. Only rpp's objects call the wrapper; the monitors' waits
// live in libstdc++.
extern "C" int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
static volatile bool g_spurious = false;
static std::atomic<uint32_t> g_wait_no{0};
static std::atomic<uint64_t> g_spurious_wakes{0};
extern "C" int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if(g_spurious && g_wait_no.fetch_add(1, std::memory_order_relaxed) % 3 == 0) {
        pthread_mutex_unlock(m);
        sched_yield();
        g_spurious_wakes.fetch_add(1, std::memory_order_relaxed);
        pthread_mutex_lock(m);
        return 0;
    }
    return __real_pthread_cond_wait(c, m);
}
static std::atomic<int64_t> g_frames{0};
struct Frames {
    static constexpr Literal name = "Frames";
    static void* alloc(u64 n) { g_frames.fetch_add(1, std::memory_order_relaxed); return ::malloc(n); }
    static void free(void* p) { g_frames.fetch_sub(1, std::memory_order_relaxed); ::free(p); }
};
template<typename R> using Task = Async::Task<R, Frames>;
static std::atomic<int64_t> g_locals{0};
struct Local { u64* p = new u64(42); Local() { g_locals.fetch_add(1, std::memory_order_relaxed); } Local(const Local&) = delete; ~Local() { delete p; g_locals.fetch_sub(1, std::memory_order_relaxed); } };

static int n_tasks() { int n = 0; if(DIR* d = opendir("/proc/self/task")) { while(auto* e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); } return n; }
static bool wait_for(std::function<bool()> f, double s = 30) {
    double t0 = mon::now(), end = t0 + s;
    while(!f()) { if(mon::now() > end) return false; usleep(30); }
    mon::count_max("max_wait_ms", (uint64_t)((mon::now() - t0) * 1000));
    return true;
}
// Blocking on a task that was lost would hang the monitor: poll with a deadline first.
template<typename T> static bool completes(T& t, const char* what) {
    if(wait_for([&] { return t.done(); })) return true;
    mon::violation("pool.lost", "%s never completed", what);
    auto end = mon::finish(); // the pool cannot be torn down safely with a lost job
    _exit(end ? end : 1);
}
// What the monitors know about one pool: the ids of threads that resumed its jobs. No lock on the hot path.
struct Seen {
    std::atomic<u64> ids[80] = {};
    std::atomic<uint64_t> resumed{0};
    u64 cap = 0;
    void at() {
        resumed.fetch_add(1, std::memory_order_relaxed);
        u64 me = (u64)Thread::this_id();
        for(u64 i = 0; i < 80; i++) {
            u64 v = ids[i].load(std::memory_order_relaxed);
            if(v == me) return;
            if(v == 0) {
                if(i >= cap) { mon::violation("pool.worker", "jobs were resumed on more than %llu threads", (unsigned long long)cap); return; }
                u64 z = 0;
                if(ids[i].compare_exchange_strong(z, me, std::memory_order_relaxed) || z == me) return;
            }
        }
    }
    bool has(u64 id) { for(auto& x : ids) if(x == id) return true; return false; }
    uint64_t used() { uint64_t n = 0; for(auto& x : ids) n += x != 0; return n; }
};
struct Env {
    Async::Pool<>& pool;
    Seen& seen;
    std::atomic<uint64_t> tickets{0}, bodies{0}, ended{0};
};
// Suspend onto the pool and check the resumption. The plain words travel with the coroutine.
#define HOP(env)                                                                                                       \
    do {                                                                                                               \
        (env).tickets.fetch_add(1, std::memory_order_relaxed);                                                         \
        u64 before_ = mine.a;                                                                                          \
        mine.a = mine.b = ++mine.n;                                                                                    \
        (void)before_;                                                                                                 \
        co_await (env).pool.suspend();                                                                                 \
        (env).seen.at();                                                                                               \
        if(mine.a != mine.n || mine.b != mine.n) mon::violation("pool.visibility", "a job's writes were lost over a suspension"); \
    } while(0)
struct Mine { u64 a = 0, b = 0, n = 0; };

static Task<u64> tree(Env& e, u64 depth, uint64_t seed) {
    e.bodies.fetch_add(1, std::memory_order_relaxed);
    Local l;
    Mine mine;
    Rng r(seed);
    u64 sum = 1;
    int hops = depth ? 1 + (int)r(2) : (int)r(2);
    for(int i = 0; i < hops; i++) HOP(e);
    if(depth) {
        int kids = (int)r.range(1, 3);
        std::vector<Task<u64>> t;
        for(int i = 0; i < kids; i++) t.push_back(tree(e, depth - 1, mon::mix(seed, (uint64_t)i)));
        if(r.chance(30)) HOP(e);
        for(auto& x : t) sum += co_await x;
        if(r.chance(20)) HOP(e);
    }
    e.ended.fetch_add(1, std::memory_order_relaxed);
    co_return sum;
}
static u64 tree_ref(u64 depth, uint64_t seed) {
    Rng r(seed);
    u64 sum = 1;
    if(depth) { r(2); int kids = (int)r.range(1, 3); for(int i = 0; i < kids; i++) sum += tree_ref(depth - 1, mon::mix(seed, (uint64_t)i)); }
    return sum;
}
static Task<u64> hopper(Env& e, int n, u64 caller, u64* plain) {
    e.bodies.fetch_add(1, std::memory_order_relaxed);
    Local l;
    Mine mine;
    if(n) {
        HOP(e);
        if((u64)Thread::this_id() == caller) mon::violation("pool.inline", "a suspended job was resumed on the thread that scheduled it");
        if(plain && *plain != 7) mon::violation("pool.visibility", "a write made before scheduling is not visible to the job");
        if(plain) *plain = 8;
        for(int i = 1; i < n; i++) HOP(e);
    }
    e.ended.fetch_add(1, std::memory_order_relaxed);
    co_return (u64)n * 3;
}
static Task<u64> between(Env& a, Env& b, int n, uint64_t seed) {
    a.bodies.fetch_add(1, std::memory_order_relaxed);
    Local l;
    Mine mine;
    Rng r(seed);
    for(int i = 0; i < n; i++) { if(r.chance(50)) HOP(a); else HOP(b); }
    a.ended.fetch_add(1, std::memory_order_relaxed);
    co_return (u64)n;
}
static void settle(Env& e, const char* what) {
    if(!wait_for([&] { return e.ended == e.bodies; })) mon::violation("pool.lost", "%s: %llu jobs started, %llu ended", what, (unsigned long long)e.bodies.load(), (unsigned long long)e.ended.load());
    MON_CHECK(e.seen.resumed == e.tickets, "pool.once", "%s: %llu suspensions, %llu resumptions", what, (unsigned long long)e.tickets.load(), (unsigned long long)e.seen.resumed.load());
    mon::eval(e.tickets);
    mon::count("suspensions", e.tickets);
    mon::count_max("max_workers_seen", e.seen.used());
    mon::distinct(mon::mix(e.tickets, e.seen.used()));
}
static void clean(const char* what) {
    MON_CHECK(g_frames == 0, "pool.frames", "%s: %lld coroutine frames not freed", what, (long long)g_frames.load());
    MON_CHECK(g_locals == 0, "pool.locals", "%s: %lld locals of jobs not destroyed exactly once", what, (long long)g_locals.load());
    g_frames = 0;
    g_locals = 0;
}
// Every worker runs a job started after this call, so each is past whatever it did for earlier jobs
// (a pool must outlive the calls other pools' workers make into it).
struct Gate { std::atomic<bool> open{false}; std::atomic<u64> seen[80] = {}; std::atomic<u64> ran{0}; };
static Task<u64> passer(Async::Pool<>& pool, Gate& g) {
    co_await pool.suspend();
    u64 me = (u64)Thread::this_id();
    for(auto& x : g.seen) { u64 z = 0; if(x.compare_exchange_strong(z, me) || z == me) break; }
    for(int i = 0; i < 5000 && !g.open.load(); i++) usleep(1000);
    g.ran.fetch_add(1);
    co_return 1;
}
static void drain(Async::Pool<>& pool) {
    u64 n = pool.n_threads();
    for(int attempt = 0; attempt < 20; attempt++) {
        Gate g;
        {
            std::vector<Task<u64>> v;
            for(u64 i = 0; i < 4 * n; i++) v.push_back(passer(pool, g));
            g.open.store(true);
            for(auto& t : v) (void)t.block();
        }
        u64 used = 0;
        for(auto& x : g.seen) used += x.load() != 0;
        if(used >= n) { mon::count("drained_pools", 1); return; }
    }
}
static void trees(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("tree case %d", c);
        {
            Async::Pool<> pool;
            Seen seen;
            seen.cap = pool.n_threads();
            Env e{pool, seen};
            int n = (int)r.range(1, 12);
            for(int i = 0; i < n; i++) {
                uint64_t s = r.next();
                u64 depth = r(7);
                auto t = tree(e, depth, s);
                if(r.chance(15)) { u64 want = tree_ref(depth, s); if(completes(t, "a fork/join tree")) MON_CHECK(t.block() == want, "pool.value", "wrong sum"); }
                else if(r.chance(80)) { u64 want = tree_ref(depth, s); completes(t, "a fork/join tree"); u64 got = t.block(); MON_CHECK(got == want, "pool.value", "tree of depth %llu gave %llu, expected %llu", (unsigned long long)depth, (unsigned long long)got, (unsigned long long)want); }
                // otherwise dropped: it runs on
            }
            settle(e, "trees");
            MON_CHECK(!seen.has((u64)Thread::this_id()), "pool.inline", "a job was resumed on the scheduling thread");
        }
        clean("trees");
    }
}
static void bursts(Rng& r, int cases) { // many threads schedule at once
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("burst case %d", c);
        int before = n_tasks();
        {
            Async::Pool<> pool;
            Seen seen;
            seen.cap = pool.n_threads();
            Env e{pool, seen};
            int T = (int)r.range(1, 10);
            std::vector<std::thread> ts;
            std::vector<u64> ids((size_t)T);
            uint64_t s0 = r.next();
            for(int t = 0; t < T; t++)
                ts.emplace_back([&, t] {
                    Rng q(s0 + (uint64_t)t);
                    u64 me = ids[(size_t)t] = (u64)Thread::this_id();
                    int n = (int)q.range(1, 60);
                    std::deque<u64> plain;
                    std::vector<Task<u64>> v;
                    std::vector<int> hops;
                    for(int i = 0; i < n; i++) {
                        int h = (int)q(5);
                        hops.push_back(h);
                        plain.push_back(7);
                        v.push_back(hopper(e, h, me, &plain.back()));
                        if(q.chance(10)) sched_yield();
                        if(q.chance(3)) usleep(200);
                    }
                    for(size_t i = 0; i < v.size(); i++) {
                        completes(v[i], "a scheduled job");
                        MON_CHECK(v[i].block() == (u64)hops[i] * 3, "pool.value", "wrong result");
                        if(hops[i]) MON_CHECK(plain[i] == 8, "pool.visibility", "the job's write is not visible after it completed");
                    }
                });
            for(auto& t : ts) t.join();
            settle(e, "burst");
            for(auto id : ids) (void)id;
            mon::count("scheduling_threads", (uint64_t)T);
        }
        clean("burst");
        if(!wait_for([&] { return n_tasks() <= before; }, 5)) mon::violation("pool.join", "%d threads before the pool, %d after it was destroyed", before, n_tasks());
    }
}
// Every worker is held by a job while a deep backlog builds up behind it; then all of it runs, in each worker's order.
static Task<u64> holder(Env& e, std::atomic<u64>& held, std::atomic<bool>& gate) {
    e.bodies.fetch_add(1, std::memory_order_relaxed);
    Local l;
    Mine mine;
    HOP(e);
    held++;
    while(!gate.load()) usleep(50);
    e.ended.fetch_add(1, std::memory_order_relaxed);
    co_return 0;
}
struct Order { std::mutex m; std::map<std::pair<u64, int>, u64> last; }; // (worker, scheduling thread) -> last number seen
static Task<u64> numbered(Env& e, Order& o, int from, u64 number, int more) {
    e.bodies.fetch_add(1, std::memory_order_relaxed);
    Local l;
    Mine mine;
    HOP(e);
    {
        std::lock_guard<std::mutex> g(o.m);
        u64& last = o.last[{(u64)Thread::this_id(), from}];
        if(last >= number) mon::violation("pool.order", "job %llu of a thread ran after its job %llu on the same worker, whose queue it entered earlier", (unsigned long long)number, (unsigned long long)last);
        last = number;
    }
    for(int i = 0; i < more; i++) HOP(e);
    e.ended.fetch_add(1, std::memory_order_relaxed);
    co_return number;
}
static void backlog(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("backlog case %d", c);
        {
            g_cpus = (int64_t)r.range(1, (int)__real_sysconf(_SC_NPROCESSORS_ONLN));
            Async::Pool<> pool;
            g_cpus = 0;
            Seen seen;
            seen.cap = pool.n_threads();
            Env e{pool, seen};
            std::atomic<u64> held{0};
            std::atomic<bool> gate{false};
            std::vector<Task<u64>> hold;
            Order order;
            auto fill = [&](int from, int n, uint64_t s, std::vector<Task<u64>>& v) {
                Rng q(s);
                for(int i = 0; i < n; i++) v.push_back(numbered(e, order, from, (u64)i + 1, q.chance(10) ? (int)q(3) : 0));
            };
            while(held < seen.cap && hold.size() < 4000) { hold.push_back(holder(e, held, gate)); usleep(20); }
            if(!wait_for([&] { return held >= seen.cap; })) mon::violation("pool.lost", "%llu of %llu workers were ever given a job", (unsigned long long)held.load(), (unsigned long long)seen.cap);
            int T = (int)r.range(1, 4), N = r.chance(50) ? (int)r(100) : (int)r(2500);
            std::vector<std::vector<Task<u64>>> v((size_t)T);
            std::vector<std::thread> ts;
            for(int t = 0; t < T; t++) ts.emplace_back([&, t, s = r.next()] { fill(t, N, s, v[(size_t)t]); });
            for(auto& t : ts) t.join();
            gate = true;
            for(auto& h : hold) { completes(h, "a job holding its worker"); h.block(); }
            for(auto& l : v) for(size_t i = 0; i < l.size(); i++) { completes(l[i], "a job of a deep backlog"); MON_CHECK(l[i].block() == i + 1, "pool.value", "wrong result"); }
            settle(e, "backlog");
            mon::count_max("deepest_backlog", (uint64_t)(T * N));
        }
        clean("backlog");
    }
}
static void hops(Rng& r, int cases) { // two live pools never share workers
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("two-pool case %d", c);
        {
            Async::Pool<> p, q;
            Seen sp, sq;
            sp.cap = p.n_threads();
            sq.cap = q.n_threads();
            Env a{p, sp}, b{q, sq};
            std::vector<Task<u64>> v;
            std::vector<int> n;
            for(int i = 0; i < 20; i++) { n.push_back((int)r(20)); v.push_back(between(a, b, n.back(), r.next())); }
            for(size_t i = 0; i < v.size(); i++) { completes(v[i], "a job hopping between pools"); MON_CHECK(v[i].block() == (u64)n[i], "pool.value", "wrong result"); }
            settle(a, "first pool");
            MON_CHECK(sq.resumed == b.tickets, "pool.once", "second pool: %llu suspensions, %llu resumptions", (unsigned long long)b.tickets.load(), (unsigned long long)sq.resumed.load());
            for(auto& id : sp.ids) if(id) MON_CHECK(!sq.has(id), "pool.worker", "a job suspended onto one pool was resumed by a worker of another");
            drain(p);
            drain(q);
        }
        clean("two pools");
    }
}
static void idle(Rng& r, int rounds) { // one job at a time onto sleeping workers: a lost wake-up leaves it waiting
    Async::Pool<> pool;
    Seen seen;
    seen.cap = pool.n_threads();
    Env e{pool, seen};
    u64 me = (u64)Thread::this_id();
    for(int i = 0; i < rounds && !mon::violations(); i++) {
        mon::ctx("idle round %d", i);
        int h = (int)r.range(1, 3);
        u64 plain = 7;
        auto t = hopper(e, h, me, &plain);
        completes(t, "a job scheduled onto an idle pool");
        MON_CHECK(t.block() == (u64)h * 3, "pool.value", "wrong result");
        if(r.chance(20)) usleep((useconds_t)r(150));
    }
    settle(e, "idle");
    mon::count("idle_rounds", (uint64_t)rounds);
}
static void teardown(Rng& r, int cases) { // queued and running independent jobs at destruction
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("teardown case %d", c);
        int before = n_tasks();
        Seen seen;
        uint64_t resumed = 0, tickets = 0;
        {
            Async::Pool<> pool;
            seen.cap = pool.n_threads();
            Env* e = new Env{pool, seen}; // outlives the jobs
            int n = (int)r(80);
            for(int i = 0; i < n; i++) { auto gone = hopper(*e, (int)r.range(1, 6), 0, nullptr); (void)gone; }
            if(r.chance(50)) usleep((useconds_t)r(300));
            pool.~Pool();
            resumed = seen.resumed;
            tickets = e->tickets;
            MON_CHECK(resumed <= tickets, "pool.once", "%llu suspensions, %llu resumptions", (unsigned long long)tickets, (unsigned long long)resumed);
            mon::count("jobs_cut_short", (uint64_t)(e->bodies - e->ended));
            delete e;
            new(&pool) Async::Pool<>;
        }
        MON_CHECK(seen.resumed == resumed, "pool.join", "a job ran after the pool was destroyed");
        clean("teardown");
        if(!wait_for([&] { return n_tasks() <= before; }, 5)) mon::violation("pool.join", "%d threads before the pool, %d after it was destroyed", before, n_tasks());
        mon::eval();
    }
}
static void small_machines(Rng& r) {
    int64_t real = __real_sysconf(_SC_NPROCESSORS_ONLN);
    for(int64_t cpus = 1; cpus <= real; cpus++) {
        mon::ctx("machine with %lld hardware threads", (long long)cpus);
        g_cpus = cpus;
        {
            Async::Pool<> pool;
            Seen seen;
            seen.cap = pool.n_threads();
            MON_CHECK(seen.cap >= 1 && seen.cap <= (u64)cpus, "pool.size", "%llu workers for %lld hardware threads", (unsigned long long)seen.cap, (long long)cpus);
            Env e{pool, seen};
            for(int i = 0; i < 6; i++) { uint64_t s = r.next(); auto t = tree(e, 4, s); completes(t, "a tree on a small machine"); MON_CHECK(t.block() == tree_ref(4, s), "pool.value", "wrong sum"); }
            settle(e, "small machine");
        }
        g_cpus = 0;
        clean("small machine");
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C21", "hash of (suspensions in a case, workers that resumed jobs)");
    Rng r(mon::S().seed);
    g_spurious = true;
    if(mon::want("backlog")) backlog(r, (int)mon::n(12, 300));
    if(mon::want("trees")) trees(r, (int)mon::n(120, 2500));
    if(mon::want("bursts")) bursts(r, (int)mon::n(150, 3000));
    if(mon::want("hops")) hops(r, (int)mon::n(60, 1500));
    if(mon::want("idle")) idle(r, (int)mon::n(8000, 200000));
    if(mon::want("teardown")) teardown(r, (int)mon::n(200, 5000));
    if(mon::want("small")) small_machines(r);
    g_spurious = false;
    mon::count("spurious_wakeups", g_spurious_wakes);
    Profile::finalize();
    return mon::finish();
}
