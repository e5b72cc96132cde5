// Shared runtime-monitor support for every harness in /verif/harness.
// Standard-library headers are the reference side of every oracle and must come before rpp's.
#pragma once
#include <dirent.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define MON_TSAN 1
#endif
#endif
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mon {

struct Rng { // splitmix64 / xorshift: independent of rpp::RNG
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t operator()(uint64_t n) { return n ? next() % n : 0; } // [0,n)
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); }
    bool chance(unsigned pct) { return next() % 100 < pct; }
    double unit() { return (double)(next() >> 11) * 0x1p-53; }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
inline uint64_t hstr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for(unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

struct State {
    uint64_t seed = 1;
    bool thorough = false;
    double scale = 1.0;
    std::string out, only, prop;
    std::atomic<uint64_t> evaluations{0};
    std::mutex mu;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, uint64_t> viol;
    std::string rule;
    double t0 = 0;
    bool finished = false;
};
inline State& S() {
    static State* s = new State;
    return *s;
}
// What is being executed right now; printed if the process dies.
inline char ctx_buf[4096];
inline void ctx(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const std::string& s);
inline void ctx(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(ctx_buf, sizeof ctx_buf, fmt, ap);
    va_end(ap);
    static std::atomic<uint64_t> n{0};
    uint64_t k = n.fetch_add(1, std::memory_order_relaxed);
    if(k && (k & (k - 1)) == 0) sample(ctx_buf); // what was being run, at the 2nd, 3rd, 5th, 9th, ... step
}
inline void raw(const char* s) {
    size_t n = strlen(s);
    while(n) {
        ssize_t k = write(2, s, n);
        if(k <= 0) return;
        s += k;
        n -= (size_t)k;
    }
}
inline void print_ctx() {
    raw("\n@@CTX ");
    raw(ctx_buf);
    raw("\n");
}
inline void on_signal(int sig) {
    print_ctx();
    raw(sig == SIGTRAP ? "@@DIED rpp-die-or-assert SIGTRAP\n" : sig == SIGABRT ? "@@DIED SIGABRT\n" : "@@DIED signal\n");
    _exit(97);
}
inline double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

inline void violation(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void violation(const char* key, const char* fmt, ...) {
    char msg[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msg, sizeof msg, fmt, ap);
    va_end(ap);
    for(char* c = msg; *c; c++)
        if(*c == '\n') *c = ' ';
    std::lock_guard<std::mutex> g(S().mu);
    if(S().viol[key]++ < 3) {
        std::string line = std::string("\n@@VIOL ") + key + " | " + msg + " | ctx: " + ctx_buf + "\n";
        raw(line.c_str());
    }
}
#define MON_CHECK(cond, key, ...)                                                                  \
    do {                                                                                           \
        if(!(cond)) ::mon::violation(key, __VA_ARGS__);                                            \
    } while(0)

inline uint64_t violations() {
    std::lock_guard<std::mutex> g(S().mu);
    uint64_t n = 0;
    for(auto& [k, v] : S().viol) n += v;
    return n;
}
inline void eval(uint64_t n = 1) { S().evaluations.fetch_add(n, std::memory_order_relaxed); }
inline void distinct(uint64_t h) {
    std::lock_guard<std::mutex> g(S().mu);
    if(S().distinct.size() < 4000000) S().distinct.insert(h);
}
inline void sample(const std::string& s) {
    std::lock_guard<std::mutex> g(S().mu);
    if(S().samples.size() < 40) S().samples.push_back(s.substr(0, 400));
}
inline void count(const char* name, uint64_t n = 1) {
    std::lock_guard<std::mutex> g(S().mu);
    S().counters[name] += n;
}
inline void count_max(const char* name, uint64_t n) {
    std::lock_guard<std::mutex> g(S().mu);
    auto& c = S().counters[name];
    if(n > c) c = n;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
inline std::string jesc(const std::string& s) {
    std::string o;
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if(c < 0x20 || c >= 0x7f)
            o += fmt("\\u%04x", c);
        else
            o += (char)c;
    }
    return o;
}

inline void init(int argc, char** argv, const char* prop, const char* rule) {
    State& s = S();
    s.prop = prop;
    s.rule = rule;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--seed") s.seed = strtoull(nxt().c_str(), nullptr, 10);
        else if(a == "--tier") s.thorough = nxt() == "thorough";
        else if(a == "--out") s.out = nxt();
        else if(a == "--only") s.only = nxt();
        else if(a == "--scale") s.scale = atof(nxt().c_str());
    }
    s.t0 = now();
    if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(print_ctx);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sigaction(SIGTRAP, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
    ctx("start");
    static pid_t main_pid = getpid();
    atexit([] { // the library called exit() under us (fatal path, leak report)
        if(getpid() != main_pid || S().finished) return;
        violation("died.exit", "the process exited before the harness finished");
    });
}
inline bool want(const char* section) {
    if(!S().only.empty() && S().only != section) return false;
    ctx("section %s", section);
    return true;
}
// Number of cases to run: quick and thorough budgets, scaled by the variant's slow-down.
inline uint64_t n(uint64_t quick, uint64_t thorough) {
    double v = (double)(S().thorough ? thorough : quick) * S().scale;
    return v < 1 ? 1 : (uint64_t)v;
}
inline int finish() {
    State& s = S();
    std::lock_guard<std::mutex> g(s.mu);
    if(!s.out.empty()) {
        FILE* f = fopen(s.out.c_str(), "w");
        if(f) {
            fprintf(f, "{\"evaluations\": %llu, \"distinct\": %llu, \"rule\": \"%s\", \"samples\": [",
                    (unsigned long long)s.evaluations.load(), (unsigned long long)s.distinct.size(),
                    jesc(s.rule).c_str());
            for(size_t i = 0; i < s.samples.size(); i++)
                fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(s.samples[i]).c_str());
            fprintf(f, "], \"counters\": {");
            bool first = true;
            for(auto& [k, v] : s.counters) {
                fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(k).c_str(), (unsigned long long)v);
                first = false;
            }
            fprintf(f, "}, \"violations\": {");
            first = true;
            for(auto& [k, v] : s.viol) {
                fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(k).c_str(), (unsigned long long)v);
                first = false;
            }
            fprintf(f, "}}\n");
            fclose(f);
        }
    }
    bool bad = !s.viol.empty();
    s.finished = true;
    raw(bad ? "@@DONE violations\n" : "@@DONE ok\n");
    return bad ? 1 : 0;
}

// ---------------------------------------------------------------- child processes
// Hides where an object lives. Clang does not instrument a function's accesses to elements of its own
// local arrays and structs, so ThreadSanitizer would not see them; through this reference it does.
template<typename T> T& opaque(T& t) { T* p = &t; asm volatile("" : "+r"(p) : : "memory"); return *p; }
struct Child {
    bool exited = false, signaled = false, timed_out = false;
    int code = 0, sig = 0;
    std::string output; // stdout+stderr
};
// Runs fn in a forked child with its output captured. Only call while single-threaded.
template<typename F> Child in_child(F&& fn, int timeout_ms = 20000) {
    Child c;
    int p[2];
    if(pipe(p)) return c;
    fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0) {
        close(p[0]);
        dup2(p[1], 1);
        dup2(p[1], 2);
        signal(SIGTRAP, SIG_DFL);
        signal(SIGABRT, SIG_DFL);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        int rc = fn();
        fflush(nullptr);
        _exit(rc);
    }
    close(p[1]);
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    double end = now() + timeout_ms / 1000.0;
    char buf[4096];
    int st = 0;
    for(;;) {
        ssize_t k;
        while((k = read(p[0], buf, sizeof buf)) > 0)
            if(c.output.size() < (16u << 20)) c.output.append(buf, (size_t)k);
        pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid) break;
        if(now() > end) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            c.timed_out = true;
            break;
        }
        usleep(200);
    }
    ssize_t k;
    while((k = read(p[0], buf, sizeof buf)) > 0)
        if(c.output.size() < (16u << 20)) c.output.append(buf, (size_t)k);
    close(p[0]);
    if(WIFEXITED(st)) c.exited = true, c.code = WEXITSTATUS(st);
    if(WIFSIGNALED(st)) c.signaled = true, c.sig = WTERMSIG(st);
    return c;
}
inline bool sanitizer_text(const std::string& o) {
    return o.find("Sanitizer") != std::string::npos || o.find("runtime error:") != std::string::npos;
}

// ---------------------------------------------------------------- lifetime monitor
// Every object of a Tracked type is registered by address. A moved-from object is 'hollow': rpp's
// containers may either destroy it or simply drop its memory, so both are accepted. Everything
// else is exactly-once: construct on dead or hollow storage, use only while live, destroy once.
struct Registry {
    enum St : uint8_t { dead = 0, live = 1, hollow = 2 };
    std::mutex mu;
    std::unordered_map<const void*, St> st;
    int64_t n_live = 0;
    uint64_t made = 0, copied = 0, moved = 0, destroyed = 0;
    void ctor(const void* p) {
        std::lock_guard<std::mutex> g(mu);
        auto& s = st[p];
        if(s == live) violation("lifetime.construct-over-live", "object constructed over a live object");
        s = live;
        n_live++;
        made++;
    }
    void moved_out(const void* p) {
        std::lock_guard<std::mutex> g(mu);
        auto& s = st[p];
        if(s == live) {
            s = hollow;
            n_live--;
        } else if(s == dead)
            violation("lifetime.move-from-dead", "move from an object that is not alive");
        moved++;
    }
    void refill(const void* p) {
        std::lock_guard<std::mutex> g(mu);
        auto& s = st[p];
        if(s == dead) violation("lifetime.assign-to-dead", "assignment to an object that is not alive");
        else if(s == hollow) {
            s = live;
            n_live++;
        }
    }
    void dtor(const void* p) {
        std::lock_guard<std::mutex> g(mu);
        auto it = st.find(p);
        if(it == st.end() || it->second == dead) {
            violation("lifetime.destroy-dead", "destructor run on an object that is not alive");
            return;
        }
        if(it->second == live) {
            n_live--;
            destroyed++;
        }
        st.erase(it);
    }
    void use(const void* p) {
        std::lock_guard<std::mutex> g(mu);
        auto it = st.find(p);
        if(it == st.end() || it->second == dead)
            violation("lifetime.use-dead", "use of an object that is not alive");
        else if(it->second == hollow)
            violation("lifetime.use-moved-from", "a moved-from object was observed as a live value");
    }
    bool is_live(const void* p) {
        std::lock_guard<std::mutex> g(mu);
        auto it = st.find(p);
        return it != st.end() && it->second == live;
    }
    int64_t live_now() {
        std::lock_guard<std::mutex> g(mu);
        return n_live;
    }
    size_t tracked() { // live or hollow objects whose destructor has not run
        std::lock_guard<std::mutex> g(mu);
        return st.size();
    }
    // Hollow entries whose memory was recycled stay in the map harmlessly; drop them between cases.
    void case_end(const char* what) {
        std::lock_guard<std::mutex> g(mu);
        if(n_live != 0)
            violation("lifetime.leak", "%lld object(s) never destroyed after %s", (long long)n_live, what);
        st.clear();
        n_live = 0;
    }
};
inline Registry& reg() {
    static Registry* r = new Registry;
    return *r;
}

// Open descriptors of this process. Other threads (starting, or waiting for events with a short-lived epoll descriptor)
// come and go, so a baseline is a value that stays put for a while and a comparison waits for the count to get there: a
// leak stays, a descriptor in passing does not.
inline int fds_once(bool skip_epoll) {
    int n = 0;
    if(DIR* d = opendir("/proc/self/fd")) {
        while(auto* e = readdir(d)) {
            if(e->d_name[0] == '.') continue;
            char to[64] = {};
            if(skip_epoll && (readlinkat(dirfd(d), e->d_name, to, sizeof to - 1) <= 0 || strstr(to, "eventpoll"))) continue;
            n++;
        }
        closedir(d);
    }
    return n;
}
inline int fds(bool skip_epoll = false) {
    int n = fds_once(skip_epoll);
    for(int same = 0, i = 0; same < 4 && i < 400; i++) {
        if(i) usleep(skip_epoll ? 1000 : 100);
        int k = fds_once(skip_epoll);
        same = k == n ? same + 1 : 0;
        n = k;
    }
    return n;
}
inline bool fds_are(int want, bool skip_epoll = false, double s = 5) {
    for(double end = now() + s; fds_once(skip_epoll) != want; usleep(500)) if(now() > end) return false;
    return true;
}
} // namespace mon

// A move-only-or-clonable element with a heap payload: LeakSanitizer / ASan see payload leaks and
// double frees, the registry sees construction / destruction discipline.
struct Trk {
    long long* v;
    explicit Trk(int64_t x) : v(new long long(x)) { mon::reg().ctor(this); }
    Trk() : Trk(0) {}
    Trk(Trk&& o) noexcept : v(o.v) {
        mon::reg().ctor(this);
        mon::reg().moved_out(&o);
        o.v = nullptr;
    }
    Trk& operator=(Trk&& o) noexcept {
        if(this == &o) return *this;
        mon::reg().refill(this);
        mon::reg().moved_out(&o);
        delete v;
        v = o.v;
        o.v = nullptr;
        return *this;
    }
    Trk(const Trk&) = delete;
    Trk& operator=(const Trk&) = delete;
    ~Trk() noexcept {
        mon::reg().dtor(this);
        delete v;
        v = nullptr;
    }
    [[nodiscard]] Trk clone() const noexcept {
        mon::reg().use(this);
        return Trk(v ? *v : -999);
    }
    int64_t get() const {
        mon::reg().use(this);
        return v ? *v : -999;
    }
    void set(int64_t x) {
        mon::reg().use(this);
        if(v) *v = x;
    }
    bool operator<(const Trk& o) const { return get() < o.get(); }
    bool operator==(const Trk& o) const { return get() == o.get(); }
    bool operator!=(const Trk& o) const { return get() != o.get(); }
};

// Copyable tracked element without clone(): exercises the copy-construct paths.
struct Cpy {
    long long* v;
    explicit Cpy(int64_t x) : v(new long long(x)) { mon::reg().ctor(this); }
    Cpy() : Cpy(0) {}
    Cpy(const Cpy& o) noexcept : v(new long long(o.get())) { mon::reg().ctor(this); }
    Cpy(Cpy&& o) noexcept : v(o.v) {
        mon::reg().ctor(this);
        mon::reg().moved_out(&o);
        o.v = nullptr;
    }
    Cpy& operator=(const Cpy& o) noexcept {
        if(this == &o) return *this;
        int64_t x = o.get();
        mon::reg().refill(this);
        delete v;
        v = new long long(x);
        return *this;
    }
    Cpy& operator=(Cpy&& o) noexcept {
        if(this == &o) return *this;
        mon::reg().refill(this);
        mon::reg().moved_out(&o);
        delete v;
        v = o.v;
        o.v = nullptr;
        return *this;
    }
    ~Cpy() noexcept {
        mon::reg().dtor(this);
        delete v;
        v = nullptr;
    }
    int64_t get() const {
        mon::reg().use(this);
        return v ? *v : -999;
    }
    void set(int64_t x) {
        mon::reg().use(this);
        if(v) *v = x;
    }
    bool operator<(const Cpy& o) const { return get() < o.get(); }
    bool operator==(const Cpy& o) const { return get() == o.get(); }
    bool operator!=(const Cpy& o) const { return get() != o.get(); }
};
struct Pod {
    int64_t a;
    int32_t b;
    int8_t c[9];
    bool operator<(const Pod& o) const { return a < o.a; }
    bool operator==(const Pod& o) const { return a == o.a; }
    bool operator!=(const Pod& o) const { return a != o.a; }
};
// Uniform element access for the generic drivers.
template<typename T> struct El;
template<> struct El<int> {
    static constexpr const char* name = "int";
    static constexpr bool tracked = false, copyable = true;
    static int make(int64_t x) { return (int)x; }
    static int64_t get(const int& t) { return t; }
    static void set(int& t, int64_t x) { t = (int)x; }
};
template<> struct El<uint8_t> {
    static constexpr const char* name = "u8";
    static constexpr bool tracked = false, copyable = true;
    static uint8_t make(int64_t x) { return (uint8_t)x; }
    static int64_t get(const uint8_t& t) { return t; }
    static void set(uint8_t& t, int64_t x) { t = (uint8_t)x; }
};
template<> struct El<Pod> {
    static constexpr const char* name = "pod";
    static constexpr bool tracked = false, copyable = true;
    static Pod make(int64_t x) {
        Pod p{x, (int32_t)(x * 7), {}};
        for(int i = 0; i < 9; i++) p.c[i] = (int8_t)(x + i);
        return p;
    }
    static int64_t get(const Pod& t) {
        if(t.a == 0) return 0;
        Pod p = make(t.a);
        return t.b == p.b && !memcmp(t.c, p.c, 9) ? t.a : -12345;
    }
    static void set(Pod& t, int64_t x) { t = make(x); }
};
template<> struct El<Trk> {
    static constexpr const char* name = "clonable";
    static constexpr bool tracked = true, copyable = false;
    static Trk make(int64_t x) { return Trk(x); }
    static int64_t get(const Trk& t) { return t.get(); }
    static void set(Trk& t, int64_t x) { t.set(x); }
};
template<> struct El<Cpy> {
    static constexpr const char* name = "copyable";
    static constexpr bool tracked = true, copyable = true;
    static Cpy make(int64_t x) { return Cpy(x); }
    static int64_t get(const Cpy& t) { return t.get(); }
    static void set(Cpy& t, int64_t x) { t.set(x); }
};
