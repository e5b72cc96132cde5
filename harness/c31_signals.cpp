// C31: blocking operations under signal storms (SIGUSR1/SIGUSR2 with and without SA_RESTART, aimed at every thread of the
// process) and under SIGSTOP/SIGCONT from a helper process. A waiter may return only after its condition was made true,
// must return once it was, and sleep/timers are held against the monotonic clock.
#include "mon.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <rpp/base.h>
#include <rpp/asyncio.h>
#include <rpp/files.h>
#include <rpp/pool.h>
#include <rpp/thread.h>
using namespace rpp;
using mon::Rng;
using Async::Event;

static u64 ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (u64)t.tv_sec * 1000000000 + (u64)t.tv_nsec; }
static std::atomic<u64> handled{0};
static thread_local u64 mine __attribute__((tls_model("initial-exec"))) = 0;
static void on_usr(int) { int e = errno; mine++; handled.fetch_add(1, std::memory_order_relaxed); errno = e; }

// ---- the storm: one thread of this process signals all others; a helper process stops and continues this process
struct Shared { std::atomic<int> stop_on{0}; std::atomic<u64> stops{0}; std::atomic<int> quit{0}; };
static Shared* sh;
static std::atomic<int> storm_on{0};
static std::atomic<bool> storm_quit{false};
static std::atomic<u64> storm_sent{0}, storm_rounds{0};
static pid_t pest_pid;
static void pest(pid_t parent) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    uint64_t x = 88172645463325252ull;
    while(!sh->quit) {
        if(sh->stop_on && getppid() == parent) {
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            kill(parent, SIGSTOP);
            usleep((useconds_t)(50 + x % 1500));
            kill(parent, SIGCONT);
            sh->stops++;
            usleep((useconds_t)(100 + (x >> 20) % 3000));
        } else usleep(300);
    }
    _exit(0);
}
static void storm(int self_ok) {
    pid_t me = (pid_t)syscall(SYS_gettid), pid = getpid();
    uint64_t x = 0x9e3779b97f4a7c15ull;
    while(!storm_quit) {
        if(!storm_on) { usleep(100); continue; }
        if(DIR* d = opendir("/proc/self/task")) {
            while(auto* e = readdir(d)) {
                pid_t t = atoi(e->d_name);
                if(!t || t == me) continue;
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                if(syscall(SYS_tgkill, pid, t, x & 1 ? SIGUSR1 : SIGUSR2) == 0) storm_sent++;
            }
            closedir(d);
        }
        storm_rounds++;
        // dense bursts or a steady rain, but never so dense that the process only handles signals
        if(storm_on == 2 || (x >> 40) % 8 == 0) usleep((useconds_t)(300 + (x >> 8) % 1200));
        else usleep((useconds_t)(60 + (x >> 8) % 120));
    }
}
// a round under pressure: storm kind chosen at random, stops sometimes
struct Pressure {
    u64 h0 = handled, s0 = sh->stops;
    Pressure(Rng& r, bool always = false) { int k = (int)r(8); storm_on = always || k ? 1 + (k & 1) : 0; sh->stop_on = k < 2 || r.chance(15); }
    ~Pressure() { storm_on = 0; sh->stop_on = 0; mon::count("signals_handled", handled - h0); mon::count("stops_and_continues", sh->stops - s0); }
};
static bool wait_for(std::function<bool()> f, double s = 40) {
    double end = mon::now() + s;
    while(!f()) { if(mon::now() > end) return false; usleep(100); }
    return true;
}
[[noreturn]] static void lost(const char* key, const char* what) {
    mon::violation(key, "%s never completed although its condition holds", what);
    storm_on = 0;
    kill(pest_pid, SIGKILL);
    mon::finish();
    _exit(1);
}
static void pause_us(Rng& r) { if(r.chance(85)) usleep((useconds_t)(r.chance(20) ? r(15000) : r(2500))); }
// while the condition is false for a while: how many signals did the blocked thread take?
static void flags(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("flag round %d", c);
        Pressure p(r);
        Thread::Flag* f = new Thread::Flag;
        std::atomic<bool> released{false};
        std::atomic<u64> back{0}, hits{0}, in{0};
        u64 n = 1 + r(6);
        std::vector<std::thread> ts;
        for(u64 i = 0; i < n; i++) ts.emplace_back([&] {
            u64 h = mine;
            in++;
            f->block();
            if(!released) mon::violation("signal.flag-early", "Flag::block returned before the flag was signalled");
            hits += mine - h;
            back++;
        });
        (void)wait_for([&] { return in == n; });
        pause_us(r);
        u64 early = back;
        if(early) mon::violation("signal.flag-early", "%llu of %llu waiters returned early", (unsigned long long)early, (unsigned long long)n);
        released = true;
        f->signal();
        if(!wait_for([&] { return back == n; })) lost("signal.flag-lost", "Flag::block");
        for(auto& t : ts) t.join();
        delete f;
        mon::eval(n);
        mon::count("signals_while_blocked_on_flag", hits);
        mon::distinct(mon::mix(1, mon::mix(n, hits)));
    }
}
static void futures(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("future round %d", c);
        Pressure p(r);
        std::atomic<bool> released{false};
        std::atomic<u64> got{0};
        u64 want = r.next(), h = mine;
        u64 delay = r(12000);
        auto f = Thread::spawn([&released, want, delay] { u64 t = ns() + delay * 1000; while(ns() < t) { if(delay & 1) sched_yield(); else Thread::sleep(0); } released = true; return want; });
        u64 v = f->block();
        if(!released) mon::violation("signal.future-early", "Future::block returned before the value was made");
        MON_CHECK(v == want, "signal.future-value", "the future holds another value");
        // several waiters for completion, join
        std::atomic<bool> done{false};
        Thread::Thread<> t{[&] { Thread::sleep(delay % 5); done = true; }};
        t.join();
        if(!done) mon::violation("signal.join-early", "join returned before the thread ended");
        mon::eval(2);
        mon::distinct(mon::mix(2, mon::mix(delay, mine - h)));
        mon::count("signals_while_blocked_on_future", mine - h);
    }
}
static void events(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("event round %d", c);
        Pressure p(r);
        Vec<Event> v;
        u64 n = 1 + r(9), k = r(n);
        for(u64 i = 0; i < n; i++) v.push(Event{});
        std::atomic<int> state{0};
        std::atomic<u64> hits{0};
        std::thread w([&] {
            u64 h = mine;
            state = 1;
            u64 i = Event::wait_any(v.slice());
            if(state != 2) mon::violation("signal.event-early", "wait_any returned before an event was signalled");
            if(i != k) mon::violation("signal.event-index", "wait_any returned %llu, only %llu was signalled", (unsigned long long)i, (unsigned long long)k);
            hits = mine - h;
            state = 3;
        });
        (void)wait_for([&] { return state >= 1; });
        pause_us(r);
        state = 2;
        v[k].signal();
        if(!wait_for([&] { return state == 3; })) lost("signal.event-lost", "wait_any");
        w.join();
        mon::eval();
        mon::count("signals_while_blocked_on_event", hits);
        mon::distinct(mon::mix(3, mon::mix(n * 16 + k, hits)));
    }
}
static void sleeps(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        Pressure p(r, true);
        std::vector<std::thread> ts;
        std::atomic<u64> back{0};
        u64 n = 1 + r(10);
        std::vector<u64> ms;
        for(u64 i = 0; i < n; i++) ms.push_back(r.chance(20) ? r(3) : r(40));
        mon::ctx("sleep round %d", c);
        for(u64 i = 0; i < n; i++) ts.emplace_back([&, i] {
            u64 t0 = ns(), h = mine;
            Thread::sleep(ms[i]);
            u64 el = ns() - t0;
            if(el < ms[i] * 1000000) mon::violation("signal.sleep-early", "sleep(%llu) returned after %llu us and %llu signals", (unsigned long long)ms[i], (unsigned long long)el / 1000, (unsigned long long)(mine - h));
            mon::count("signals_while_sleeping", mine - h);
            mon::count_max("sleep_max_late_us", (el - ms[i] * 1000000) / 1000);
            back++;
        });
        if(!wait_for([&] { return back == n; })) lost("signal.sleep-lost", "sleep");
        for(auto& t : ts) t.join();
        mon::eval(n);
        mon::distinct(mon::mix(4, mon::mix(n, ms[0])));
    }
}
// ---- pools: workers waiting for jobs, the event thread waiting for events, timers and files
static Async::Task<u64> hops(Async::Pool<>& pool, std::atomic<u64>& ran, u64 n) { u64 k = 0; for(u64 i = 0; i < n; i++) { co_await pool.suspend(); ran++; k++; } co_return k; }
static Async::Task<u64> timers(Async::Pool<>& pool, u64 ms) {
    co_await pool.suspend();
    u64 t0 = ns();
    co_await Async::wait(pool, ms);
    u64 el = ns() - t0;
    if(el < ms * 1000000) mon::violation("signal.timer-early", "wait(%llu ms) completed after %llu us", (unsigned long long)ms, (unsigned long long)el / 1000);
    co_return ms;
}
static Async::Task<u64> on_event(Async::Pool<>& pool, Event e, std::atomic<bool>& fired, std::atomic<u64>& woken) {
    co_await pool.event(rpp::move(e));
    if(!fired) mon::violation("signal.event-early", "a coroutine was resumed before its event fired");
    woken++;
    co_return 1;
}
static Async::Task<u64> file_io(Async::Pool<>& pool, u64 size, u64 seed, const char* path) {
    co_await pool.suspend();
    Vec<u8> data;
    for(u64 i = 0; i < size; i++) data.push((u8)(mon::mix(seed, i)));
    bool ok = co_await Async::write(pool, String_View{(const u8*)path, strlen(path)}, data.slice());
    if(!ok) mon::violation("signal.file", "writing %llu bytes failed", (unsigned long long)size);
    auto back = co_await Async::read(pool, String_View{(const u8*)path, strlen(path)});
    if(!back.ok() || back->length() != size || (size && memcmp(back->data(), data.data(), size))) mon::violation("signal.file", "reading %llu bytes back failed or differs", (unsigned long long)size);
    co_return size;
}
template<typename T> static void finishes(T& t, const char* what) { if(!wait_for([&] { return t.done(); })) lost("signal.task-lost", what); }
static void pools(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("pool round %d", c);
        Pressure p(r);
        Async::Pool<> pool;
        for(int part = 0; part < 4 && !mon::violations(); part++) {
            std::atomic<u64> ran{0}, woken{0};
            std::atomic<bool> fired{false};
            Vec<Async::Task<u64>> ts, es, ti, fs;
            u64 want = 0, n = r(12), k = r(6);
            for(u64 i = 0; i < n; i++) { u64 h = 1 + r(6); want += h; ts.push(hops(pool, ran, h)); if(r.chance(20)) usleep((useconds_t)r(400)); }
            std::vector<int> fds;
            for(u64 i = 0; i < k; i++) { int pf[2]; if(pipe2(pf, O_CLOEXEC)) abort(); fds.push_back(pf[1]); es.push(on_event(pool, Event::of_sys(pf[0], 1), fired, woken)); }
            for(u64 i = r(4); i; i--) ti.push(timers(pool, r(20)));
            char path[2][40];
            for(u64 i = 0; i < 2; i++) { snprintf(path[i], 40, "sig_%d_%lu.bin", c, i); if(r.chance(40)) fs.push(file_io(pool, r.chance(30) ? r(5) : r(300000), r.next(), path[i])); }
            pause_us(r);
            if(woken) mon::violation("signal.event-early", "%llu coroutines were resumed before their events fired", (unsigned long long)woken.load());
            fired = true;
            for(int fd : fds) if(write(fd, "x", 1) != 1) abort();
            for(auto& t : ts) finishes(t, "a pool job");
            for(auto& t : es) finishes(t, "an event wait");
            for(auto& t : ti) finishes(t, "a timer");
            for(auto& t : fs) finishes(t, "file input/output");
            MON_CHECK(ran == want && woken == k, "signal.pool-count", "%llu of %llu resumptions, %llu of %llu events", (unsigned long long)ran.load(), (unsigned long long)want, (unsigned long long)woken.load(), (unsigned long long)k);
            for(int fd : fds) close(fd);
            for(u64 i = 0; i < 2; i++) unlink(path[i]);
            mon::eval(n + k + 1);
            mon::count("pool_resumptions", ran + woken);
            mon::distinct(mon::mix(5, mon::mix(n * 100 + k, want)));
        }
    }
}
// ---- file transfers that block: named pipes with a slow peer
static void fifos(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("fifo round %d", c);
        char path[40];
        snprintf(path, 40, "fifo_%d", (int)getpid());
        unlink(path);
        if(mkfifo(path, 0600)) { perror("mkfifo"); abort(); }
        u64 size = 1 + (r.chance(50) ? r(3000) : r(200000)), seed = r.next();
        std::vector<u8> data;
        for(u64 i = 0; i < size; i++) data.push_back((u8)mon::mix(seed, i));
        std::atomic<int> state{0};
        std::atomic<u64> hits{0};
        int fd = open(path, O_RDWR | O_NONBLOCK | O_CLOEXEC);
        Pressure p(r, true);
        if(r.chance(50)) { // the library reads
            std::thread w([&] {
                u64 h = mine;
                auto got = Files::read(String_View{(const u8*)path, strlen(path)});
                hits = mine - h;
                if(!got.ok()) mon::violation("signal.file", "reading %llu bytes from a slow pipe failed under signals", (unsigned long long)size);
                else if(got->length() != size || memcmp(got->data(), data.data(), size)) mon::violation("signal.file", "reading a slow pipe gave %llu of %llu bytes", (unsigned long long)got->length(), (unsigned long long)size);
                state = 1;
            });
            u64 at = 0;
            while(at < size && state == 0) {
                u64 n = std::min(size - at, 1 + r(size / 3 + 1));
                ssize_t k = write(fd, data.data() + at, n);
                if(k > 0) at += (u64)k;
                pause_us(r);
            }
            int left = 1;
            (void)wait_for([&] { return state != 0 || (ioctl(fd, FIONREAD, &left) == 0 && left == 0); });
            pause_us(r);
            close(fd);
            if(!wait_for([&] { return state == 1; })) lost("signal.file-lost", "reading a pipe");
            w.join();
        } else { // the library writes
            int rd = open(path, O_RDONLY | O_NONBLOCK | O_CLOEXEC);
            close(fd);
            std::thread w([&] {
                u64 h = mine;
                bool ok = Files::write(String_View{(const u8*)path, strlen(path)}, Slice<const u8>{data.data(), data.size()});
                hits = mine - h;
                if(!ok) mon::violation("signal.file", "writing %llu bytes to a slow pipe failed under signals", (unsigned long long)size);
                state = 1;
            });
            std::vector<u8> got;
            bool all = wait_for([&] {
                u8 buf[5000];
                bool written = state == 1;
                ssize_t k = read(rd, buf, 1 + r(sizeof(buf)));
                if(k > 0) { got.insert(got.end(), buf, buf + k); if(r.chance(20)) pause_us(r); }
                return got.size() >= size || (written && k <= 0 && got.size() < size && errno != EINTR);
            });
            if(!all || !wait_for([&] { return state == 1; })) lost("signal.file-lost", "writing a pipe");
            w.join();
            if(got != data) mon::violation("signal.file", "the reader of a slow pipe got %zu of %llu bytes", got.size(), (unsigned long long)size);
            close(rd);
        }
        unlink(path);
        mon::eval();
        mon::count("signals_while_blocked_on_file", hits);
        mon::distinct(mon::mix(7, mon::mix(size, hits)));
    }
}
// ---- locks and condition variables
static void conds(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("cond round %d", c);
        Pressure p(r);
        Thread::Mutex m;
        Thread::Cond cv;
        u64 value = 0, tokens = 0, n = 2 + r(4), per = 20 + r(60);
        std::atomic<u64> got{0}, holders{0}, out{0};
        std::vector<std::thread> ts;
        for(u64 i = 0; i < n; i++) ts.emplace_back([&] {
            for(u64 k = 0; k < per; k++) {
                Thread::Lock l(m);
                while(tokens == 0) cv.wait(m);
                if(holders.fetch_add(1) != 0) mon::violation("signal.exclusion", "two threads hold the mutex");
                tokens--; value++; got++;
                holders.fetch_sub(1);
            }
            out++;
        });
        for(u64 k = 0; k < n * per; k++) { { Thread::Lock l(m); tokens++; } if(r.chance(50)) cv.signal(); else cv.broadcast(); if(r.chance(4)) usleep((useconds_t)r(300)); }
        // a signal that met no waiter is not remembered, but then the tokens are seen before waiting
        if(!wait_for([&] { return out == n; })) lost("signal.cond-lost", "Cond::wait");
        for(auto& t : ts) t.join();
        MON_CHECK(value == n * per && tokens == 0, "signal.exclusion", "%llu updates of %llu", (unsigned long long)value, (unsigned long long)(n * per));
        mon::eval(n * per);
        mon::distinct(mon::mix(6, mon::mix(n, per)));
    }
}
// Sleeps from seconds to centuries, all under signals, in a child that is given up after a moment: none may have returned.
static void centuries(Rng& r) {
    std::vector<u64> ms = {700, 999, 1000, 1001, 2147, 2148, 4294, 4295, 5000, 65536, 1ull << 20, 2147484, 4294968, 1ull << 31, (1ull << 32) + 1, 18446744074ull, 1ull << 40, 9223372036855ull, 18446744073710ull, 18446744073710000ull, 1ull << 55};
    for(int i = 0; i < 6; i++) ms.push_back(600 + (r.next() >> (8 + r(45))));
    for(int i = 0; i < 6; i++) ms.push_back(1000 * (1 + r(5000)) + r(2));
    mon::ctx("%zu long sleeps", ms.size());
    mon::Child c = mon::in_child([&]() -> int {
        u64 t0 = ns();
        static std::atomic<u64> woke[64];
        std::vector<std::thread>* ts = new std::vector<std::thread>;
        for(size_t i = 0; i < ms.size(); i++) ts->emplace_back([&, i] { Thread::sleep(ms[i]); woke[i] = ns(); });
        while(ns() - t0 < 400000000) {
            usleep(10000);
            for(auto& t : *ts) pthread_kill(t.native_handle(), r.chance(50) ? SIGUSR1 : SIGUSR2);
        }
        int done = 0;
        for(size_t i = 0; i < ms.size(); i++)
            if(u64 w = woke[i]; w && (w - t0) / 1000000 < ms[i]) { printf("EARLY sleep(%llu) had returned after %llu us\n", (unsigned long long)ms[i], (unsigned long long)((w - t0) / 1000)); done++; }
        return done ? 3 : 0;
    });
    mon::eval(ms.size());
    mon::count("long_sleeps", ms.size());
    if(c.timed_out) { mon::count("long_sleeps_not_judged"); return; }
    if(c.exited && c.code == 3) mon::violation("signal.sleep-early", "%s", c.output.substr(c.output.find("EARLY"), 300).c_str());
    else if(!c.exited || c.code) mon::violation("signal.sleep-long", "long sleeps ended the program (exit %d code %d sig %d): %s", c.exited, c.code, c.sig, c.output.substr(0, 600).c_str());
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C31", "hash of (operation, waiters, signals taken while blocked)");
    Rng r(mon::S().seed);
    sh = new(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Shared;
    struct sigaction sa = {};
    sa.sa_handler = on_usr;
    sigaction(SIGUSR1, &sa, nullptr);
    sa.sa_flags = SA_RESTART;
    sigaction(SIGUSR2, &sa, nullptr);
    if(mon::want("centuries")) centuries(r);
    pid_t me = getpid();
    pest_pid = fork();
    if(pest_pid == 0) pest(me);
    std::thread st(storm, 0);
    int n = (int)mon::n(60, 1400);
    for(int i = 0; i < n && !mon::violations(); i++) {
        if(mon::want("flags")) flags(r, 2);
        if(mon::want("futures")) futures(r, 2);
        if(mon::want("events")) events(r, 2);
        if(mon::want("sleeps")) sleeps(r, 1);
        if(mon::want("conds")) conds(r, 1);
        if(mon::want("pools")) pools(r, 1);
        if(mon::want("fifos")) fifos(r, 1);
    }
    storm_on = 0;
    sh->stop_on = 0;
    storm_quit = true;
    st.join();
    sh->quit = 1;
    waitpid(pest_pid, nullptr, 0);
    mon::count("signals_sent", storm_sent);
    Profile::finalize();
    return mon::finish();
}
