#include <sched.h>
// C19: Thread, spawn, Future and Promise. Run counters, plain payloads (ThreadSanitizer), lifetime registry for
// captured state and results, early-readiness gates, and a quiescence check for leaks.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/thread.h>
using namespace rpp;
using mon::fmt;
using mon::Rng;
using std::string;

static void jitter(Rng& r) {
    switch(r(10)) {
    case 0: sched_yield(); break;
    case 1: usleep((useconds_t)r(80)); break;
    case 2: for(volatile int i = 0, n = (int)r(400); i < n; i = i + 1) {} break;
    default: break;
    }
}
static bool wait_for(std::function<bool()> f, double s = 20) {
    double end = mon::now() + s;
    while(!f()) { if(mon::now() > end) return false; usleep(50); }
    return true;
}
// Shared, deliberately plain state of one spawned job: only spawn/block may order the accesses.
struct Job {
    uint64_t in[4] = {}, out[4] = {};
    std::atomic<int> runs{0}, finished{0};
    std::atomic<bool> gate{false};
    u64 runner = 0, spawner = (u64)Thread::this_id();
};
using U = u64;
struct Big { u64 a[33]; };
struct Move_Only { u64* p; explicit Move_Only(u64 v = 0) : p(new u64(v)) {} Move_Only(Move_Only&& o) noexcept : p(o.p) { o.p = nullptr; } Move_Only& operator=(Move_Only&& o) noexcept { std::swap(p, o.p); return *this; } Move_Only(const Move_Only&) = delete; ~Move_Only() { delete p; } };

static void body(Job& j, Rng& q, u64 v, bool gated) {
    if(j.runs.fetch_add(1, std::memory_order_relaxed) != 0) mon::violation("spawn.once", "the function ran twice");
    for(auto x : j.in) if(x != v) mon::violation("spawn.visibility", "a write made before spawn is not visible in the spawned thread");
    j.runner = (u64)Thread::this_id();
    if(gated) while(!j.gate.load(std::memory_order_relaxed)) sched_yield();
    if(q.chance(30)) jitter(q);
    for(auto& x : j.out) x = v * 3;
    j.finished.store(1, std::memory_order_relaxed);
}
static void judge(Job& j, u64 v) {
    if(!j.finished.load(std::memory_order_relaxed)) mon::violation("spawn.early", "block returned before the function finished");
    for(auto x : j.out) if(x != v * 3) mon::violation("spawn.visibility", "a write made by the function is not visible after block");
    if(j.runner == j.spawner) mon::violation("spawn.own-thread", "the function ran on the spawning thread");
}
// One spawn with result type R made by mk(v) and checked by eq(R&, v).
template<typename R, typename Mk, typename Eq> static void one(Rng& r, Mk mk, Eq eq) {
    auto j = std::make_shared<Job>();
    u64 v = r.next() | 1;
    for(auto& x : j->in) x = v;
    bool gated = r.chance(50);
    uint64_t s = r.next();
    {
        auto fut = Thread::spawn([j, s, v, gated, mk]() -> R { Rng q(s); body(*j, q, v, gated); return mk(v); });
        if(gated) {
            if(r.chance(50)) (void)wait_for([&] { return j->runs.load(std::memory_order_relaxed) == 1; });
            for(int i = 0; i < 20; i++) {
                if(fut->ready()) { mon::violation("spawn.early", "ready() is true while the function is still running"); break; }
                if(i % 7 == 0) sched_yield();
            }
            j->gate.store(true, std::memory_order_relaxed);
        }
        int how = (int)r(5);
        auto other = fut.dup();
        if(how == 0) { // drop it: the thread still runs exactly once
        } else if(how == 1) {
            if(!wait_for([&] { return fut->ready(); })) mon::violation("spawn.ready", "ready() never became true");
            judge(*j, v);
            R got = fut->block();
            eq(got, v);
        } else if(how == 2) { // taken by another thread through its own handle
            std::thread([&, f = rpp::move(other)]() mutable { R got = f->block(); judge(*j, v); eq(got, v); auto gone = rpp::move(f); }).join();
            MON_CHECK(fut->ready(), "spawn.ready", "ready() is false after the future was taken");
        } else {
            if(r.chance(30)) jitter(r);
            if(how == 3) { auto gone = rpp::move(fut); R got = gone->block(); judge(*j, v); eq(got, v); }
            else { R got = fut->block(); judge(*j, v); eq(got, v); MON_CHECK(other->ready(), "spawn.ready", "ready() differs between two handles"); }
        }
        mon::count(how == 0 ? "futures_dropped" : "futures_taken");
    }
    if(!wait_for([&] { return j->finished.load() == 1; })) mon::violation("spawn.once", "the function of a dropped future never ran");
    if(!wait_for([&] { return j.use_count() == 1; })) mon::violation("spawn.captures", "captured state was not released");
    MON_CHECK(j->runs == 1, "spawn.once", "the function ran %d times", j->runs.load());
    mon::eval();
}
static void results(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        int kind = (int)r(8);
        mon::ctx("spawn case %d kind %d", c, kind);
        mon::distinct(mon::mix((uint64_t)kind, r(64)));
        switch(kind) {
        case 0: one<u64>(r, [](u64 v) { return v; }, [](u64& g, u64 v) { MON_CHECK(g == v, "spawn.result", "u64 result differs"); }); break;
        case 1: one<Big>(r, [](u64 v) { Big b; for(auto& x : b.a) x = v++; return b; }, [](Big& g, u64 v) { for(auto x : g.a) MON_CHECK(x == v++, "spawn.result", "struct result differs"); }); break;
        case 2: one<Move_Only>(r, [](u64 v) { return Move_Only(v); }, [](Move_Only& g, u64 v) { MON_CHECK(g.p && *g.p == v, "spawn.result", "move-only result differs"); }); break;
        case 3: one<String<>>(r, [](u64 v) { String<> s(v % 300 + 1); s.set_length(v % 300 + 1); for(auto& ch : s) ch = (u8)v; return s; },
                              [](String<>& g, u64 v) { MON_CHECK(g.length() == v % 300 + 1, "spawn.result", "string length differs"); for(auto ch : g) MON_CHECK(ch == (u8)v, "spawn.result", "string bytes differ"); }); break;
        case 4: one<Vec<u64>>(r, [](u64 v) { Vec<u64> w; for(u64 i = 0; i < v % 50; i++) w.push(v + i); return w; },
                              [](Vec<u64>& g, u64 v) { MON_CHECK(g.length() == v % 50, "spawn.result", "vector length differs"); for(u64 i = 0; i < g.length(); i++) MON_CHECK(g[i] == v + i, "spawn.result", "vector differs"); }); break;
        case 5: one<Opt<u64>>(r, [](u64 v) { return v & 2 ? Opt<u64>{v} : Opt<u64>{}; }, [](Opt<u64>& g, u64 v) { MON_CHECK(g.ok() == !!(v & 2) && (!g.ok() || *g == v), "spawn.result", "optional differs"); }); break;
        case 6: one<bool>(r, [](u64 v) { return (v & 4) != 0; }, [](bool& g, u64 v) { MON_CHECK(g == ((v & 4) != 0), "spawn.result", "bool differs"); }); break;
        default: { // void
            auto j = std::make_shared<Job>();
            u64 v = r.next() | 1;
            for(auto& x : j->in) x = v;
            uint64_t s = r.next();
            auto f = Thread::spawn([j, s, v] { Rng q(s); body(*j, q, v, false); });
            if(r.chance(70)) { f->block(); judge(*j, v); f->block(); MON_CHECK(f->ready(), "spawn.ready", "ready() is false after block"); }
            { auto g = rpp::move(f); }
            if(!wait_for([&] { return j->finished.load() == 1 && j.use_count() == 1; })) mon::violation("spawn.once", "void function never completed");
            MON_CHECK(j->runs == 1, "spawn.once", "the function ran %d times", j->runs.load());
            mon::eval();
        }
        }
    }
}
// Lifetime of tracked captures, arguments and results.
static u64 free_fn(u64 a, u64 b) { return a * 31 + b; }
static void lifetimes(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("lifetime case %d", c);
        int64_t v = (int64_t)r(1000000);
        std::atomic<int> ran{0};
        {
            switch(r(5)) {
            case 0: { // move-only capture, move-only result
                Trk cap(v);
                auto f = Thread::spawn([cap = rpp::move(cap), &ran]() mutable { ran++; return Trk(cap.get() + 1); });
                if(r.chance(70)) { Trk g = f->block(); MON_CHECK(g.get() == v + 1, "spawn.result", "tracked result differs"); }
            } break;
            case 1: { // arguments by value
                auto f = Thread::spawn([&ran](Trk a, u64 b) { ran++; return a.get() + (int64_t)b; }, Trk(v), (u64)7);
                if(r.chance(70)) MON_CHECK(f->block() == v + 7, "spawn.args", "arguments were not delivered");
            } break;
            case 2: { // copied lvalue argument: the original is untouched
                Cpy x(v);
                auto f = Thread::spawn([&ran](const Cpy& a) { ran++; return a.get() * 2; }, x);
                MON_CHECK(x.get() == v, "spawn.args", "the caller's argument changed");
                x.set(-5); // the spawned side owns its copy
                if(r.chance(70)) MON_CHECK(f->block() == v * 2, "spawn.args", "the argument was not captured by value");
            } break;
            case 3: { // a Vec of futures taken in random order
                Vec<Thread::Future<Trk>> fs;
                int n = (int)r.range(1, 6);
                for(int i = 0; i < n; i++) fs.push(Thread::spawn([i, v, &ran] { if(i == 0) ran++; return Trk(v + i); }));
                std::vector<int> ord;
                for(int i = 0; i < n; i++) ord.push_back(i);
                for(size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r(i)]);
                for(int i : ord) { Trk g = fs[(u64)i]->block(); MON_CHECK(g.get() == v + i, "spawn.result", "future %d yields another's value", i); }
            } break;
            default: {
                auto f = Thread::spawn([&ran](u64 a, u64 b) { ran++; return free_fn(a, b); }, (u64)v, (u64)3);
                MON_CHECK(f->block() == free_fn((u64)v, 3), "spawn.args", "arguments were not delivered in order");
            }
            }
        }
        if(!wait_for([&] { return ran == 1; })) mon::violation("spawn.once", "ran %d times", ran.load());
        if(!wait_for([&] { return mon::reg().live_now() == 0; })) mon::violation("lifetime.leak", "captured or returned objects were never destroyed");
        (void)wait_for([] { return mon::reg().tracked() == 0; }, 2); // moved-from objects still held by a finishing thread
        mon::reg().case_end("spawn");
        mon::eval();
    }
}
static void threads(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("thread case %d", c);
        std::atomic<int> runs{0};
        std::atomic<bool> gate{false};
        u64 plain_[4] = {}, ids_[4] = {};
        auto& plain = mon::opaque(plain_);
        auto& ids = mon::opaque(ids_);
        u64 n = 0, expect = 0;
        bool joined[4] = {}, check_ids = false;
        u64 tid[4] = {};
        {
            std::vector<Thread::Thread<>> ts;
            auto start = [&] {
                u64 i = n++;
                expect++;
                return Thread::Thread{[&, i, cap = Trk((int64_t)i)]() mutable {
                    while(!gate) sched_yield();
                    plain[i] = (u64)cap.get() + 1;
                    ids[i] = (u64)Thread::this_id();
                    runs++;
                }};
            };
            int how = (int)r(6);
            if(how == 0) { // join explicitly
                for(int i = 0; i < 3; i++) { ts.push_back(start()); tid[i] = (u64)ts[(size_t)i].id(); }
                check_ids = true;
                gate = true;
                for(int i = 0; i < 3; i++) { ts[(size_t)i].join(); joined[i] = true; MON_CHECK(plain[i] == (u64)i + 1, "thread.join", "the thread's write is not visible after join"); }
            } else if(how == 1) { // destructor joins
                gate = true;
                { Thread::Thread<> a = start(); Thread::Thread<> b = start(); }
                MON_CHECK(plain[0] == 1 && plain[1] == 2 && runs == 2, "thread.join", "a destroyed Thread did not join");
            } else if(how == 2) { // move construction keeps one owner
                gate = r.chance(50);
                Thread::Thread<> a = start();
                u64 id = (u64)a.id();
                Thread::Thread<> b(rpp::move(a));
                MON_CHECK((u64)b.id() == id, "thread.move", "moving a Thread changed its id");
                gate = true;
                b.join();
                MON_CHECK(plain[0] == 1 && ids[0] == id, "thread.move", "moved Thread joined something else");
            } else if(how == 3) { // move assignment joins what it replaces
                gate = true;
                Thread::Thread<> a = start();
                Thread::Thread<> b = start();
                a = rpp::move(b);
                MON_CHECK(plain[0] == 1, "thread.move", "move assignment dropped a running thread without joining it");
                a.join();
                MON_CHECK(plain[1] == 2, "thread.move", "the moved-in thread was not joined");
            } else if(how == 4) { // detach: runs on
                Thread::Thread<> a = start();
                a.detach();
                gate = true;
                if(!wait_for([&] { return runs == 1; })) mon::violation("thread.detach", "a detached thread never ran");
            } else { // default-constructed, moved into later
                Thread::Thread<> a;
                { Thread::Thread<> unused; Thread::Thread<> b(rpp::move(unused)); }
                gate = true;
                a = start();
                Vec<Thread::Thread<>> v;
                v.push(rpp::move(a));
                v.push(start());
                v.push(start());
                v.clear();
                MON_CHECK(runs == 3, "thread.join", "clearing a vector of threads did not join them");
            }
        }
        if(!wait_for([&] { return runs == (int)expect; })) mon::violation("thread.once", "%d runs of %llu threads", runs.load(), (unsigned long long)expect);
        if(!wait_for([&] { return mon::reg().live_now() == 0; })) mon::violation("lifetime.leak", "captured objects were never destroyed");
        (void)wait_for([] { return mon::reg().tracked() == 0; }, 2); // moved-from objects still held by a finishing thread
        mon::reg().case_end("thread");
        if(check_ids) for(int i = 0; i < 3; i++) MON_CHECK(joined[i] && ids[i] == tid[i], "thread.id", "Thread::id() differs from the thread's own this_id()");
        mon::eval();
        mon::count("threads_started", expect);
    }
}
static void promises(Rng& r, int rounds) {
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("promise round %d", k);
        uint64_t plain = 0, val = r.next() | 1;
        int W = (int)r.range(1, 5);
        std::atomic<bool> filled{false};
        uint64_t seed = r.next();
        auto p = Thread::Future<u64>::make();
        auto q0 = Thread::Future<void>::make();
        MON_CHECK(!p->ready() && !q0->ready(), "promise.early", "a new promise is ready");
        std::vector<std::thread> ts;
        for(int i = 0; i < W; i++)
            ts.emplace_back([&, i, f = p.dup(), g = q0.dup()]() mutable {
                Rng q(seed + (uint64_t)i);
                if(q.chance(50)) jitter(q);
                if(q.chance(30)) while(!f->ready()) sched_yield();
                u64 v = f->block();
                if(!filled.load(std::memory_order_relaxed)) mon::violation("promise.early", "block returned before fill");
                if(v != val) mon::violation("promise.value", "a waiter received another value");
                if(plain != val) mon::violation("promise.visibility", "a write made before fill is not visible after block");
                g->block();
            });
        if(r.chance(60)) usleep((useconds_t)r(300));
        plain = val;
        filled.store(true, std::memory_order_relaxed);
        p->fill(u64{val});
        q0->fill();
        for(auto& t : ts) t.join();
        MON_CHECK(p->ready() && p->block() == val, "promise.value", "the promise changed after being read");
        mon::eval((uint64_t)W);
        mon::distinct(mon::mix((uint64_t)W, seed & 0xff));
    }
}
// set_affinity pins the calling thread, and only it, to exactly that core; priorities leave it running.
static void placement(Rng& r, int rounds) {
    cpu_set_t allowed; CPU_ZERO(&allowed);
    if(pthread_getaffinity_np(pthread_self(), sizeof allowed, &allowed)) return;
    u64 cores = Thread::hardware_threads();
    std::vector<u64> usable;
    for(u64 c = 0; c < cores; c++) if(c < CPU_SETSIZE && CPU_ISSET((int)c, &allowed)) usable.push_back(c);
    for(int round = 0; round < rounds && !usable.empty() && !mon::violations(); round++) {
        u64 core = usable[r(usable.size())];
        u64 prio = r(4);
        mon::ctx("placement round=%d core=%llu prio=%llu", round, (unsigned long long)core, (unsigned long long)prio);
        auto f = Thread::spawn([core, prio]() -> u64 {
            Thread::set_affinity(core);
            if(prio == 0) Thread::set_priority(Thread::Priority::low);
            if(prio == 1) Thread::set_priority(Thread::Priority::normal);
            cpu_set_t now; CPU_ZERO(&now);
            if(pthread_getaffinity_np(pthread_self(), sizeof now, &now)) return 99;
            if(CPU_COUNT(&now) != 1 || !CPU_ISSET((int)core, &now)) return 1;
            for(int i = 0; i < 20; i++) if((u64)sched_getcpu() != core) return 2;
            return 0;
        });
        u64 got = f->block();
        MON_CHECK(got == 0, "placement.core", "after set_affinity(%llu) the thread %s", (unsigned long long)core,
                  got == 1 ? "may run elsewhere" : got == 2 ? "ran elsewhere" : "has no mask");
        cpu_set_t mine; CPU_ZERO(&mine);
        pthread_getaffinity_np(pthread_self(), sizeof mine, &mine);
        MON_CHECK(CPU_EQUAL(&mine, &allowed), "placement.other", "set_affinity on one thread changed another's mask");
        mon::eval(1);
        mon::distinct(mon::mix(77, core * 4 + prio));
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C19", "hash of (result type or waiter count, case shape)");
    Rng r(mon::S().seed);
    if(mon::want("results")) results(r, (int)mon::n(600, 20000));
    if(mon::want("lifetimes")) lifetimes(r, (int)mon::n(400, 12000));
    if(mon::want("threads")) threads(r, (int)mon::n(300, 9000));
    if(mon::want("promises")) promises(r, (int)mon::n(300, 9000));
    if(mon::want("placement")) placement(r, (int)mon::n(40, 800));
    usleep(20000); // detached threads are past their last capture; let them release their own block
    if(!mon::violations()) {
        for(int i = 0; i < 2000 && sys_net_allocs() != 0; i++) { usleep(1000); if(i == 0) {} }
    }
    Profile::finalize();
    return mon::finish();
}
