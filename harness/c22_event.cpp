// C22: events and timers. Event histories against a boolean model, blocked waiters against the moment of signalling,
// and crowds of coroutines waiting for events and timers on a pool, each resumed exactly once and never early.
#include "mon.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <rpp/base.h>
#include <rpp/asyncio.h>
#include <rpp/pool.h>
using namespace rpp;
using mon::fmt;
using mon::Rng;
using std::string;
using Async::Event;

// Keeps the event thread away for a while so that many waits are handed to it at once.
static std::atomic<int> g_slow_epoll{0};
extern "C" int __real_epoll_create1(int);
extern "C" int __wrap_epoll_create1(int f) {
    if(int us = g_slow_epoll) usleep((useconds_t)us);
    return __real_epoll_create1(f);
}
static int n_fds() { return mon::fds(); }
static bool fds_are(int n) { return mon::fds_are(n); }
static bool wait_for(std::function<bool()> f, double s = 30) {
    double end = mon::now() + s;
    while(!f()) { if(mon::now() > end) return false; usleep(50); }
    return true;
}
static u64 ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (u64)t.tv_sec * 1000000000 + (u64)t.tv_nsec; }
template<typename T> static bool completes(T& t, const char* what) {
    if(wait_for([&] { return t.done(); })) return true;
    mon::violation("event.lost", "%s was never resumed", what);
    auto rc = mon::finish();
    _exit(rc ? rc : 1);
}
// ---- histories of plain events
static void histories(Rng& r, int cases) {
    int fd0 = n_fds();
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("event history %d", c);
        {
            std::vector<Event> ev;
            std::vector<bool> on;
            uint64_t h = 7;
            int steps = (int)r.range(5, 60);
            for(int s = 0; s < steps && !mon::violations(); s++) {
                int op = (int)r(8);
                h = mon::mix(h, (uint64_t)op);
                if(ev.empty() || (op == 0 && ev.size() < 70)) { ev.emplace_back(); on.push_back(false); }
                else {
                    size_t i = r(ev.size());
                    switch(op) {
                    case 1: ev[i].signal(); on[i] = true; if(r.chance(30)) ev[i].signal(); if(r.chance(2)) for(u64 k = r(5000); k-- > 0;) ev[i].signal(); break;
                    case 2: ev[i].reset(); on[i] = false; break;
                    case 3: { Event m(rpp::move(ev[i])); ev[i] = rpp::move(m); } break;
                    case 4: { Event fresh; if(r.chance(50)) { fresh.signal(); ev[i] = rpp::move(fresh); on[i] = true; } else { ev[i] = rpp::move(fresh); on[i] = false; } } break;
                    case 5: { std::swap(ev[i], ev[0]); bool t = on[i]; on[i] = on[0]; on[0] = t; } break;
                    default: { // wait_any over the whole set when something is signalled
                        bool any = false;
                        for(bool b : on) any |= b;
                        if(!any) break;
                        Vec<Event> v;
                        for(auto& e : ev) v.push(rpp::move(e));
                        u64 k = Event::wait_any(v.slice());
                        if(k >= on.size() || !on[k]) mon::violation("event.wait-any", "wait_any returned %llu, which is not signalled", (unsigned long long)k);
                        for(size_t j = 0; j < ev.size(); j++) ev[j] = rpp::move(v[j]);
                        mon::count("wait_any_ready");
                    }
                    }
                }
                for(size_t i = 0; i < ev.size(); i++) {
                    bool got = ev[i].try_wait();
                    if(got != on[i]) mon::violation("event.try-wait", "try_wait of event %zu is %d, signalled is %d (step %d op %d)", i, (int)got, (int)on[i], s, op);
                }
                mon::eval();
            }
            mon::distinct(h);
        }
        MON_CHECK(fds_are(fd0), "event.fd", "%d descriptors before, %d after the events were destroyed", fd0, n_fds());
    }
}
// ---- a blocked wait_any
static void blocked(Rng& r, int cases) {
    int fd0 = n_fds();
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("blocked wait %d", c);
        {
            Vec<Event> v;
            u64 n = 1 + r(12), k = r(n);
            for(u64 i = 0; i < n; i++) { v.push(Event{}); if(r.chance(20)) { v[i].signal(); v[i].reset(); } }
            std::atomic<u64> sent{0};
            std::atomic<bool> entered{false};
            u64 second = r.chance(30) ? r(n) : k;
            std::thread w([&] {
                entered = true;
                u64 i = Event::wait_any(v.slice());
                if(!sent) mon::violation("event.early", "wait_any returned before anything was signalled");
                if(i != k && i != second) mon::violation("event.wait-any", "wait_any returned %llu; only %llu and %llu were signalled", (unsigned long long)i, (unsigned long long)k, (unsigned long long)second);
                sent = 2;
            });
            while(!entered) sched_yield();
            if(r.chance(60)) usleep((useconds_t)r(400));
            sent = 1;
            v[k].signal();
            if(second != k) v[second].signal();
            if(!wait_for([&] { return sent == 2; })) { mon::violation("event.lost", "wait_any did not return although an event is signalled"); _exit(mon::finish() ? 1 : 1); }
            w.join();
            MON_CHECK(v[k].try_wait(), "event.consistent", "waiting consumed the signal");
            mon::eval();
        }
        MON_CHECK(fds_are(fd0), "event.fd", "%d descriptors before, %d after", fd0, n_fds());
    }
}
// ---- coroutines on a pool
struct Crowd {
    Async::Pool<>& pool;
    u64 main;
    std::atomic<uint64_t> resumed{0}, waits{0};
};
static Async::Task<u64> timer(Crowd& c, u64 ms, int again) {
    u64 total = 0;
    for(int i = 0; i <= again; i++) {
        c.waits++;
        u64 t0 = ns();
        co_await Async::wait(c.pool, ms);
        u64 el = ns() - t0;
        c.resumed++;
        if(el < ms * 1000000) mon::violation("timer.early", "wait(%llu ms) completed after %llu ns", (unsigned long long)ms, (unsigned long long)el);
        mon::count_max("timer_max_late_us", (el - ms * 1000000) / 1000);
        total++;
    }
    co_return total;
}
struct Fire { int fd = -1; std::atomic<bool> fired{false}; std::atomic<int> woken{0}; };
static Async::Task<u64> on_event(Crowd& c, Fire& f, int read_fd, i32 mask, bool hop) {
    if(hop) co_await c.pool.suspend();
    c.waits++;
    co_await c.pool.event(Event::of_sys(read_fd, mask));
    c.resumed++;
    if(!f.fired) mon::violation("event.early", "a coroutine was resumed before its event fired");
    if(f.woken.fetch_add(1) != 0) mon::violation("event.once", "a coroutine was resumed twice by one event");
    if(!hop) { } // an event that is ready at once may complete inline
    co_return 9;
}
static void crowd(Rng& r, int cases) {
    for(int k = 0; k < cases && !mon::violations(); k++) {
        mon::ctx("crowd %d", k);
        int fd0 = n_fds();
        {
            Async::Pool<> pool;
            Crowd c{pool, (u64)Thread::this_id()};
            int T = (int)r(40), E = (int)r(40);
            std::deque<Fire> fire;
            std::vector<Async::Task<u64>> ts, es;
            std::vector<u64> want;
            std::vector<size_t> order;
            std::atomic<bool> go{false};
            uint64_t s = r.next();
            auto add_timer = [&](Rng& q) { u64 ms = q.chance(25) ? 0 : q.chance(80) ? q(12) : q(40); int ag = q.chance(20) ? (int)q(4) : 0; ts.push_back(timer(c, ms, ag)); want.push_back((u64)ag + 1); };
            auto add_event = [&](Rng& q) {
                fire.emplace_back();
                Fire& f = fire.back();
                int kind = (int)q(3), rd = -1;
                if(kind == 0) { int fd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC); rd = fd; f.fd = dup(fd); }
                else { int p[2]; if(pipe(p)) return; rd = p[0]; f.fd = p[1]; }
                if(q.chance(15)) { uint64_t one = 1; f.fired = true; if(write(f.fd, &one, 8)) {} } // already signalled
                else order.push_back(fire.size() - 1);
                es.push_back(on_event(c, f, rd, EPOLLIN, q.chance(40)));
            };
            Rng q(s);
            int left_t = T, left_e = E;
            std::thread firer;
            while(left_t || left_e) {
                if(left_t && (!left_e || q.chance(50))) { add_timer(q); left_t--; }
                else { add_event(q); left_e--; }
                if(q.chance(10)) usleep((useconds_t)q(300));
                if(q.chance(20) && !order.empty()) { size_t i = q(order.size()); Fire& f = fire[order[i]]; order.erase(order.begin() + (long)i); uint64_t one = 1; f.fired = true; if(write(f.fd, &one, 8)) {} }
            }
            for(size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[q(i)]);
            size_t lanes = 1 + q(3); // events fire from several threads at once
            std::vector<std::thread> th;
            for(size_t l = 0; l < lanes; l++)
                th.emplace_back([&, l] {
                    Rng z(s + l);
                    for(size_t i = l; i < order.size(); i += lanes) {
                        Fire& f = fire[order[i]];
                        uint64_t one = 1;
                        f.fired = true;
                        if(write(f.fd, &one, 8)) {}
                        if(z.chance(20)) usleep((useconds_t)z(500));
                    }
                });
            for(auto& t : th) t.join();
            for(size_t i = 0; i < ts.size(); i++) { completes(ts[i], "a timer"); MON_CHECK(ts[i].block() == want[i], "timer.once", "a timer task was resumed a wrong number of times"); }
            for(auto& t : es) { completes(t, "a coroutine whose event fired"); MON_CHECK(t.block() == 9, "event.value", "value"); }
            for(auto& f : fire) { MON_CHECK(f.woken == 1, "event.once", "an event woke its coroutine %d times", f.woken.load()); close(f.fd); }
            MON_CHECK(c.resumed == c.waits, "event.once", "%llu waits, %llu resumptions", (unsigned long long)c.waits.load(), (unsigned long long)c.resumed.load());
            mon::eval(c.waits);
            mon::count("pool_waits", c.waits);
            mon::count_max("max_concurrent_waiters", (uint64_t)(T + E));
            mon::distinct(mon::mix(s, c.waits));
        }
        MON_CHECK(fds_are(fd0), "event.fd", "%d descriptors before, %d after the pool was destroyed", fd0, n_fds());
    }
}
static Async::Task<u64> where(Async::Pool<>& p, u64 ms) { co_await Async::wait(p, ms); co_return (u64)Thread::this_id(); }
static void single(Rng& r, int rounds) { // one waiter at a time onto an idle pool, from the main thread
    Async::Pool<> pool;
    for(int i = 0; i < rounds && !mon::violations(); i++) {
        mon::ctx("single wait %d", i);
        u64 ms = r(4), t0 = ns();
        auto t = where(pool, ms);
        bool inl = t.done(); // the interval may already have passed when the timer was awaited
        completes(t, "a lone timer");
        u64 el = ns() - t0;
        u64 on = t.block();
        MON_CHECK(el >= ms * 1000000, "timer.early", "wait(%llu) took %llu ns", (unsigned long long)ms, (unsigned long long)el);
        MON_CHECK(inl || on != (u64)Thread::this_id(), "timer.thread", "a timed wait was resumed on the waiting thread");
        mon::eval();
    }
}
// ---- more waits than usual handed over at once
static void batches(Rng& r, int cases) {
    for(int k = 0; k < cases && !mon::violations(); k++) {
        mon::ctx("batch %d", k);
        int fd0 = n_fds();
        {
            Async::Pool<> pool;
            Crowd c{pool, (u64)Thread::this_id()};
            int n = (int)r.range(1, 220);
            std::deque<Fire> fire;
            std::vector<Async::Task<u64>> es;
            uint64_t s = r.next();
            g_slow_epoll = 20000;
            for(int i = 0; i < n; i++) {
                fire.emplace_back();
                int fd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
                fire.back().fd = dup(fd);
                es.push_back(on_event(c, fire.back(), fd, EPOLLIN, false));
            }
            if(r.chance(50)) usleep(30000);
            g_slow_epoll = 0;
            Rng q(s);
            std::vector<size_t> order;
            for(size_t i = 0; i < fire.size(); i++) order.push_back(i);
            for(size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[q(i)]);
            for(size_t i : order) { uint64_t one = 1; fire[i].fired = true; if(write(fire[i].fd, &one, 8)) {} }
            for(auto& t : es) { completes(t, "a coroutine whose event fired"); MON_CHECK(t.block() == 9, "event.value", "value"); }
            for(auto& f : fire) { MON_CHECK(f.woken == 1, "event.once", "an event woke its coroutine %d times", f.woken.load()); close(f.fd); }
            MON_CHECK(c.resumed == c.waits, "event.once", "%llu waits, %llu resumptions", (unsigned long long)c.waits.load(), (unsigned long long)c.resumed.load());
            mon::eval((uint64_t)n);
            mon::count_max("max_concurrent_waiters", (uint64_t)n);
            mon::distinct(mon::mix(s, (uint64_t)n));
        }
        MON_CHECK(fds_are(fd0), "event.fd", "%d descriptors before, %d after the pool was destroyed", fd0, n_fds());
    }
}
// ---- many events at once
static void many(Rng& r, int cases) {
    struct rlimit l;
    getrlimit(RLIMIT_NOFILE, &l);
    l.rlim_cur = std::min<rlim_t>(l.rlim_max, 16384);
    setrlimit(RLIMIT_NOFILE, &l);
    u64 room = l.rlim_cur / 3;
    for(int k = 0; k < cases && !mon::violations(); k++) { // a wait over hundreds of events
        int fd0 = n_fds();
        {
            u64 n = r.range(200, std::min<u64>(room, 3000));
            mon::ctx("wait over %llu events", (unsigned long long)n);
            Vec<Event> v;
            for(u64 i = 0; i < n; i++) v.push(Event{});
            for(int q = 0; q < 12; q++) {
                std::set<u64> on;
                for(u64 j = r.range(1, 3); j-- > 0;) on.insert(q == 0 ? n - 1 : r(n));
                for(u64 i : on) v[i].signal();
                u64 got = Event::wait_any(v.slice());
                MON_CHECK(on.count(got), "event.wait-any", "wait_any over %llu events returned %llu, which is not signalled", (unsigned long long)n, (unsigned long long)got);
                for(u64 i : on) v[i].reset();
                MON_CHECK(!v[got < n ? got : 0].try_wait(), "event.try-wait", "a reset event is signalled");
                mon::eval();
            }
            mon::count_max("max_events_in_one_wait", n);
        }
        MON_CHECK(fds_are(fd0), "event.fd", "%d descriptors before, %d after", fd0, n_fds());
    }
    for(int k = 0; k < (cases + 3) / 4 && !mon::violations(); k++) { // hundreds of coroutines waiting on one pool
        int fd0 = n_fds();
        {
            Async::Pool<> pool;
            Crowd c{pool, (u64)Thread::this_id()};
            int n = (int)r.range(300, std::min<u64>(room, 1100));
            mon::ctx("%d waiting coroutines", n);
            std::deque<Fire> fire;
            std::vector<Async::Task<u64>> es;
            for(int i = 0; i < n; i++) {
                fire.emplace_back();
                int fd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
                fire.back().fd = dup(fd);
                es.push_back(on_event(c, fire.back(), fd, EPOLLIN, false));
            }
            usleep(20000);
            std::vector<size_t> order;
            for(size_t i = 0; i < fire.size(); i++) order.push_back(i);
            for(size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r(i)]);
            size_t early = r(20);
            for(size_t j = 0; j < order.size(); j++) {
                uint64_t one = 1;
                fire[order[j]].fired = true;
                if(write(fire[order[j]].fd, &one, 8)) {}
                if(j == early) usleep(20000);
            }
            for(auto& t : es) { completes(t, "a coroutine whose event fired"); MON_CHECK(t.block() == 9, "event.value", "value"); }
            for(auto& f : fire) { MON_CHECK(f.woken == 1, "event.once", "an event woke its coroutine %d times", f.woken.load()); close(f.fd); }
            MON_CHECK(c.resumed == c.waits, "event.once", "%llu waits, %llu resumptions", (unsigned long long)c.waits.load(), (unsigned long long)c.resumed.load());
            mon::eval((uint64_t)n);
            mon::count_max("max_concurrent_waiters", (uint64_t)n);
        }
        MON_CHECK(fds_are(fd0), "event.fd", "%d descriptors before, %d after the pool was destroyed", fd0, n_fds());
    }
}
// ---- intervals around whole seconds
static void seconds(Rng& r) {
    mon::ctx("waits of seconds");
    Async::Pool<> pool;
    Crowd c{pool, (u64)Thread::this_id()};
    std::vector<Async::Task<u64>> ts;
    std::vector<u64> ms;
    for(u64 base : {1000ul, 2000ul}) for(u64 d : {0ul, 1ul, 7ul, 23ul, 24ul, 47ul, 48ul, 99ul, 250ul, 499ul, 500ul, 900ul, 999ul}) ms.push_back(base + d);
    for(u64 m : {50ul, 100ul, 255ul, 256ul, 511ul, 999ul}) ms.push_back(m);
    for(int i = 0; i < 30; i++) ms.push_back(r(3000));
    for(size_t i = ms.size(); i > 1; i--) std::swap(ms[i - 1], ms[r(i)]);
    for(u64 m : ms) ts.push_back(timer(c, m, 0));
    for(auto& t : ts) { completes(t, "a timer"); MON_CHECK(t.block() == 1, "timer.once", "a timer task was resumed a wrong number of times"); }
    mon::count("waits_of_seconds", ms.size());
    mon::eval(ms.size());
}
// ---- descriptors of other kinds: ready for writing, or for either
static void masks(Rng& r, int cases) {
    int fd0 = n_fds();
    for(int k = 0; k < cases && !mon::violations(); k++) {
        mon::ctx("mask case %d", k);
        int p[2];
        if(pipe2(p, O_NONBLOCK | O_CLOEXEC)) return;
        int rd = dup(p[0]);
        {
            Event out = Event::of_sys(p[1], EPOLLOUT), in = Event::of_sys(p[0], EPOLLIN), never = Event{};
            bool full = false;
            char buf[8192] = {};
            u64 used = 0;
            for(int s = 0; s < 8 && !mon::violations(); s++) {
                if(r.chance(50)) { ssize_t n; while((n = write(p[1], buf, sizeof(buf))) > 0) used += (u64)n; full = true; }
                else { ssize_t n; while((n = read(rd, buf, sizeof(buf))) > 0) {} used = 0; full = false; }
                MON_CHECK(out.try_wait() == !full, "event.mask", "try_wait on a %s pipe's write end is %d", full ? "full" : "empty", (int)out.try_wait());
                MON_CHECK(in.try_wait() == (used > 0), "event.mask", "try_wait on a %s pipe's read end is %d", full ? "full" : "empty", (int)in.try_wait());
                MON_CHECK(!never.try_wait(), "event.try-wait", "a fresh event is signalled");
                Vec<Event> v;
                v.push(rpp::move(never)); v.push(rpp::move(out)); v.push(rpp::move(in));
                u64 i = Event::wait_any(v.slice());
                MON_CHECK(i == (full ? 2u : 1u), "event.wait-any", "wait_any over a %s pipe returned %llu", full ? "full" : "empty", (unsigned long long)i);
                never = rpp::move(v[0]); out = rpp::move(v[1]); in = rpp::move(v[2]);
                mon::eval();
            }
        }
        close(rd);
        if(r.chance(10)) { // a coroutine waiting for room in a full pipe
            int z[2];
            if(pipe2(z, O_NONBLOCK | O_CLOEXEC)) return;
            char buf[8192] = {};
            while(write(z[1], buf, sizeof(buf)) > 0) {}
            {
                Async::Pool<> pool;
                Crowd c{pool, (u64)Thread::this_id()};
                Fire f;
                auto t = on_event(c, f, z[1], EPOLLOUT, r.chance(50));
                if(r.chance(50)) usleep((useconds_t)r(2000));
                MON_CHECK(!t.done(), "event.early", "a coroutine waiting for room in a full pipe was resumed");
                f.fired = true;
                while(read(z[0], buf, sizeof(buf)) > 0) {}
                completes(t, "a coroutine waiting for room");
                MON_CHECK(t.block() == 9, "event.value", "value");
            }
            close(z[0]);
            mon::count("waits_for_room");
        }
    }
    MON_CHECK(fds_are(fd0), "event.fd", "%d descriptors before, %d after", fd0, n_fds());
}
// Intervals from seconds to centuries, all awaited at once in a child that is given up after a moment: none may have elapsed.
static void centuries(Rng& r) {
    std::vector<u64> ms = {700, 999, 1000, 1001, 2147, 2148, 4294, 4295, 5000, 65536, 1ull << 20, 2147484, 4294968, 1ull << 31, (1ull << 32) + 1, 18446744074ull, 1ull << 40, 9223372036855ull, 18446744073710ull, 18446744073710000ull, 1ull << 55};
    for(int i = 0; i < 12; i++) ms.push_back(600 + (r.next() >> (8 + r(45))));
    for(int i = 0; i < 12; i++) ms.push_back(1000 * (1 + r(5000)) + r(2));
    mon::ctx("%zu long intervals", ms.size());
    mon::Child c = mon::in_child([&]() -> int {
        Async::Pool<>* pool = new Async::Pool<>;
        u64 t0 = ns();
        auto* ts = new std::vector<Async::Task<u64>>;
        for(u64 m : ms) ts->push_back(where(*pool, m));
        usleep(mon::S().thorough ? 550000 : 400000);
        int done = 0;
        for(size_t i = 0; i < ms.size(); i++) {
            bool d = (*ts)[i].done(); // asked before the clock is read
            if(d && ns() - t0 < ms[i] * 1000000 && ms[i] < 9000000000000ull) { printf("EARLY wait(%llu) had completed after %llu us\n", (unsigned long long)ms[i], (unsigned long long)((ns() - t0) / 1000)); done++; }
            else if(d && ms[i] >= 9000000000000ull) { printf("EARLY wait(%llu) had completed\n", (unsigned long long)ms[i]); done++; }
        }
        return done ? 3 : 0;
    });
    mon::eval(ms.size());
    mon::count("long_intervals", ms.size());
    if(c.timed_out) { mon::count("long_intervals_not_judged"); return; }
    if(c.exited && c.code == 3) mon::violation("timer.early", "%s", c.output.substr(c.output.find("EARLY"), 300).c_str());
    else if(!c.exited || c.code) mon::violation("timer.long", "awaiting long intervals ended the program (exit %d code %d sig %d): %s", c.exited, c.code, c.sig, c.output.substr(0, 600).c_str());
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C22", "hash of an event operation history, or of a crowd of waiters");
    Rng r(mon::S().seed);
    if(mon::want("centuries")) centuries(r);
    if(mon::want("histories")) histories(r, (int)mon::n(2000, 40000));
    if(mon::want("blocked")) blocked(r, (int)mon::n(2000, 40000));
    if(mon::want("crowd")) crowd(r, (int)mon::n(200, 4000));
    if(mon::want("batches")) batches(r, (int)mon::n(12, 200));
    if(mon::want("masks")) masks(r, (int)mon::n(300, 6000));
    if(mon::want("many")) many(r, (int)mon::n(8, 120));
    if(mon::want("seconds")) seconds(r);
    if(mon::want("single")) single(r, (int)mon::n(600, 10000));
    Profile::finalize();
    return mon::finish();
}
