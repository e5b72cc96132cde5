// C30: violated preconditions stop the program. Each violating call runs in a forked child over a randomly built state;
// the parent judges the message, its location, the way the child ended and that no sanitizer spoke first. The same calls
// with arguments inside their preconditions run in this process, where stopping would end the harness.
#include "mon.h"
#include <functional>
#include <sys/mman.h>
#include <rpp/base.h>
#include <rpp/array.h>
#include <rpp/async.h>
#include <rpp/box.h>
#include <rpp/function.h>
#include <rpp/heap.h>
#include <rpp/log_callback.h>
#include <rpp/map.h>
#include <rpp/net.h>
#include <rpp/pool.h>
#include <rpp/queue.h>
#include <rpp/range_allocator.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/thread.h>
#include <rpp/variant.h>
#include <rpp/vec.h>
#include <rpp/vmath.h>
using namespace rpp;
using mon::Rng;
using std::string;
extern "C" void __lsan_disable() __attribute__((weak));

static Rng* R_;
static volatile u64 sink;
template<typename T> static void use(const T& t) { const volatile unsigned char* p = (const volatile unsigned char*)&t; sink += p[0] + p[sizeof(T) - 1]; }
template<typename T> static void use_ptr(T* p) { use(*p); }

static void nothing(int) {}
struct Expect { const char* file = nullptr; int line = 0; const char* text = nullptr; bool threads = false, deaf = false; };
// runs f in a child and expects it to be stopped; up to eight children run at a time
struct Running { pid_t pid; int fd; double end; string what; int mode; bool listen; Expect e; string text; };
static std::vector<Running> running;
static bool judge(Running& c, int st, bool late) {
    string out;
    char buf[4096];
    ssize_t k;
    lseek(c.fd, 0, SEEK_SET);
    while((k = read(c.fd, buf, sizeof buf)) > 0 && out.size() < (16u << 20)) out.append(buf, (size_t)k);
    close(c.fd);
    bool exited = WIFEXITED(st), signaled = WIFSIGNALED(st);
    mon::ctx("%s (SIGTRAP mode %d)", c.what.c_str(), c.mode);
    auto bad = [&](const char* key, const char* why) { mon::violation(key, "%s: %s (exited %d code %d, signal %d, late %d): %s", c.what.c_str(), why, exited, WEXITSTATUS(st), signaled ? WTERMSIG(st) : 0, late, out.substr(0, 900).c_str()); return false; };
    if(mon::sanitizer_text(out)) return bad("failstop.memory", "invalid memory was touched before stopping");
    if(out.find("@@SURVIVED") != string::npos) return bad("failstop.survived", "the program went on");
    if(late) return bad("failstop.hang", "the program hangs");
    size_t a = out.find("[fatal/"), b = a == string::npos ? a : out.find("] [", a), d = b == string::npos ? b : out.find("]: ", b), f = d == string::npos ? d : out.find('\n', d);
    if(f == string::npos) return bad("failstop.message", "no fatal message with a source location");
    string loc = out.substr(b + 3, d - b - 3), msg = out.substr(d + 3, f - d - 3);
    size_t colon = loc.find(':');
    string file = loc.substr(0, colon);
    int line = colon == string::npos ? 0 : atoi(loc.c_str() + colon + 1);
    bool named = file.size() > 2 && (file.substr(file.size() - 2) == ".h" || file.find(".cpp") != string::npos);
    if(!named || line <= 0 || msg.size() < 3) return bad("failstop.message", "the fatal message has no location or text");
    bool ended = c.mode == 0 ? signaled && WTERMSIG(st) == SIGTRAP : exited && WEXITSTATUS(st) == 1;
    if(!ended) return bad("failstop.end", "the program was not ended by the assertion");
    if(c.e.file && (file != c.e.file || line != c.e.line)) return bad("failstop.location", "the location is not that of the failing statement");
    if(!c.text.empty() && msg.find(c.text) == string::npos) return bad("failstop.text", "the message lacks the text");
    if(c.listen) {
        size_t h = out.find("@@HEARD 2 [" + loc + "]: "), e = h == string::npos ? h : out.find('\n', h), t = h == string::npos ? h : h + loc.size() + 14;
        if(e == string::npos || msg.find(out.substr(t, e - t)) == string::npos) return bad("failstop.subscriber", "a log subscriber did not hear the fatal message");
    }
    mon::distinct(mon::mix(mon::hstr(loc), mon::hstr(c.what)));
    return true;
}
static void reap(size_t keep) {
    while(running.size() > keep) {
        bool any = false;
        for(size_t i = 0; i < running.size();) {
            int st = 0;
            bool late = false;
            pid_t p = waitpid(running[i].pid, &st, WNOHANG);
            if(p == 0 && mon::now() > running[i].end) { kill(running[i].pid, SIGKILL); p = waitpid(running[i].pid, &st, 0); late = true; }
            if(p == 0) { i++; continue; }
            Running c = running[i];
            running.erase(running.begin() + (long)i);
            any = true;
            judge(c, st, late);
        }
        if(!any) usleep(300);
    }
}
__attribute__((noinline)) static void stops(const char* what, const std::function<void()>& f, Expect e = {}) {
    Rng& r = *R_;
    Running c{0, -1, mon::now() + 30, what, e.threads ? 0 : (int)r(4), !e.deaf && r.chance(30), e, e.text ? e.text : ""}; // SIGTRAP by default, ignored, handled, blocked (then exit(1) follows, for which no other thread may be running)
    reap(7);
    mon::ctx("%s (SIGTRAP mode %d)", what, c.mode);
    c.fd = memfd_create("child", 0);
    fflush(nullptr);
    c.pid = fork();
    if(c.pid == 0) {
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        fcntl(c.fd, F_SETFL, O_APPEND);
        dup2(c.fd, 1);
        dup2(c.fd, 2);
        signal(SIGABRT, SIG_DFL);
        signal(SIGTRAP, c.mode == 1 ? SIG_IGN : c.mode == 2 ? nothing : SIG_DFL);
        if(c.mode == 3) { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGTRAP); sigprocmask(SIG_BLOCK, &s, nullptr); }
        if(__lsan_disable) __lsan_disable();
        if(c.listen) (void)Log::subscribe([](Log::Level l, Thread::Id, Log::Time, Log::Location loc, String_View msg) { dprintf(1, "@@HEARD %d [%.*s:%lu]: %.*s\n", (int)l, (int)loc.file.length(), loc.file.data(), loc.line, (int)msg.length(), msg.data()); });
        f();
        dprintf(1, "@@SURVIVED\n");
        _exit(0);
    }
    running.push_back(c);
    mon::eval();
    mon::count("children");
}

// ---- an index that is out of range for a container of n elements, of every kind
static u64 bad_index(Rng& r, u64 n, u64 cap = 0) {
    switch(r(12)) {
    case 0: case 1: return n;
    case 2: return n + 1;
    case 3: return cap > n ? cap - 1 : n;
    case 4: return cap > n ? n + r(cap - n) : n + r(8);
    case 5: return (1ull << 32) + r(n + 1);
    case 6: return (1ull << 63) + r(n + 1);
    case 7: return ~0ull - r(4);
    case 8: return (1ull << 61) + r(n + 1);
    case 9: return (1ull << 31) + r(n + 1);
    case 10: return n + (1ull << r(63));
    default: return n + r.next() % (~0ull - n);
    }
}
template<typename C> static string at(const char* op, u64 i, u64 n) { return string(op) + " " + std::to_string(i) + " of " + std::to_string(n); }

template<typename T> static T el(i64 x) { return El<T>::make(x); }
template<> String<> el<String<>>(i64 x) { return format<Mdefault>("element %"_v, x); }
template<typename T> static const char* en() { if constexpr(requires { El<T>::name; }) return El<T>::name; else return "String"; }

template<typename T> static void vecs(Rng& r) {
    Vec<T> v;
    u64 n = r.chance(30) ? 0 : r(40);
    for(u64 i = 0; i < n + r(20) || i < n; i++) v.push(el<T>((i64)i));
    while(v.length() > n) v.pop();
    if(r.chance(10)) { Vec<T> w = rpp::move(v); n = 0; }
    const Vec<T>& c = v;
    for(u64 i = 0; i < n; i++) { use(v[i]); use(c[i]); }
    if(n) { use(v.front()); use(v.back()); use(c.front()); use(c.back()); }
    mon::eval(2 * n);
    u64 i = bad_index(r, n, v.capacity());
    char b[120];
    snprintf(b, sizeof b, "Vec<%s> of %lu, index %lu", en<T>(), n, i);
    r.chance(50) ? stops(b, [&] { use(v[i]); }) : stops(b, [&] { use(c[i]); });
    if(n == 0) {
        snprintf(b, sizeof b, "Vec<%s> empty", en<T>());
        switch(r(5)) { case 0: stops(b, [&] { use(v.front()); }); break; case 1: stops(b, [&] { use(v.back()); }); break; case 2: stops(b, [&] { v.pop(); }); break; case 3: stops(b, [&] { use(c.front()); }); break; default: stops(b, [&] { use(c.back()); }); }
    }
    // a slice of it
    Slice<T> s = v.slice();
    const Slice<T>& cs = s;
    if(n) { use(s.front()); use(s.back()); use(s[n - 1]); use(cs[0]); }
    i = bad_index(r, n, v.capacity());
    snprintf(b, sizeof b, "Slice<%s> of %lu, index %lu", en<T>(), n, i);
    r.chance(50) ? stops(b, [&] { use(s[i]); }) : stops(b, [&] { use(cs[i]); });
    u64 st = r(n + 1), ln = r(n - st + 1);
    auto sub = s.sub(st, ln);
    MON_CHECK(sub.length() == ln, "failstop.valid", "sub(%lu, %lu) of %lu", st, ln, n);
    for(u64 k = 0; k < ln; k++) use(sub[k]);
    (void)s.sub(n, 0);
    (void)s.sub(0, n);
    if(r.chance(50)) { st = bad_index(r, n + 1, v.capacity()); ln = r.chance(40) ? (u64)0 - st + r(n + 1) : r.chance(50) ? r(n + 1) : bad_index(r, n); }
    else { st = r(n + 1); ln = r.chance(50) ? n - st + 1 : bad_index(r, n - st + 1); }
    snprintf(b, sizeof b, "Slice<%s> of %lu, sub(%lu, %lu)", en<T>(), n, st, ln);
    stops(b, [&] { auto x = cs.sub(st, ln); if(x.length()) use(x[x.length() - 1]); });
    if(n == 0) { snprintf(b, sizeof b, "Slice<%s> empty", en<T>()); r.chance(50) ? stops(b, [&] { use(s.front()); }) : stops(b, [&] { use(s.back()); }); }
}
template<typename T> static void queues(Rng& r) {
    Queue<T> q;
    u64 n = 0;
    for(u64 k = r(60); k; k--) if(n && r.chance(45)) { q.pop(); n--; } else { q.push(el<T>((i64)k)); n++; }
    if(r.chance(35)) while(n) { q.pop(); n--; }
    if(r.chance(10)) { while(n > 1) { q.pop(); n--; } }
    if(r.chance(10)) { Queue<T> w = rpp::move(q); n = 0; }
    const Queue<T>& c = q;
    for(u64 i = 0; i < n; i++) { use(q[i]); use(c[i]); }
    if(n) { use(q.front()); use(q.back()); use(c.front()); }
    if(n > 1) { use(q.penultimate()); use(c.penultimate()); }
    mon::eval(2 * n);
    u64 i = bad_index(r, n, n + r(40));
    char b[120];
    snprintf(b, sizeof b, "Queue<%s> of %lu, index %lu", en<T>(), n, i);
    r.chance(50) ? stops(b, [&] { use(q[i]); }) : stops(b, [&] { use(c[i]); });
    if(n < 2) { snprintf(b, sizeof b, "Queue<%s> of %lu, penultimate", en<T>(), n); r.chance(50) ? stops(b, [&] { use(q.penultimate()); }) : stops(b, [&] { use(c.penultimate()); }); }
    if(n == 0) {
        snprintf(b, sizeof b, "Queue<%s> empty", en<T>());
        switch(r(5)) { case 0: stops(b, [&] { use(q.front()); }); break; case 1: stops(b, [&] { use(q.back()); }); break; case 2: stops(b, [&] { q.pop(); }); break; case 3: stops(b, [&] { use(c.front()); }); break; default: stops(b, [&] { use(c.back()); }); }
    }
}
template<typename T> static void tops(Rng& r) {
    char b[120];
    {
        Stack<T> s;
        for(u64 k = r(30); k; k--) s.push(el<T>((i64)k));
        while(!s.empty()) { use(s.top()); s.pop(); mon::eval(); }
        if(r.chance(30)) { Stack<T> t = rpp::move(s); }
        const Stack<T>& c = s;
        snprintf(b, sizeof b, "Stack<%s> empty", en<T>());
        switch(r(3)) { case 0: stops(b, [&] { use(s.top()); }); break; case 1: stops(b, [&] { use(c.top()); }); break; default: stops(b, [&] { s.pop(); }); }
    }
    if constexpr(!Same<T, String<>>) {
        Heap<T> h;
        for(u64 k = r(30); k; k--) h.push(el<T>((i64)r(100)));
        while(!h.empty()) { use(h.top()); h.pop(); mon::eval(); }
        if(r.chance(30)) { Heap<T> t = rpp::move(h); }
        const Heap<T>& c = h;
        snprintf(b, sizeof b, "Heap<%s> empty", en<T>());
        switch(r(3)) { case 0: stops(b, [&] { use(h.top()); }); break; case 1: stops(b, [&] { use(c.top()); }); break; default: stops(b, [&] { h.pop(); }); }
    }
}
template<u64 N> static void arrays(Rng& r) {
    Array<i32, N>* a = new Array<i32, N>{};
    const Array<i32, N>& c = *a;
    for(u64 i = 0; i < N; i++) { use((*a)[i]); use(c[i]); }
    u64 i = bad_index(r, N);
    char b[100];
    snprintf(b, sizeof b, "Array<i32, %lu>, index %lu", N, i);
    r.chance(50) ? stops(b, [&] { use((*a)[i]); }) : stops(b, [&] { use(c[i]); });
    delete a;
}
static void strings(Rng& r) {
    u64 n = r.chance(20) ? 0 : r(40);
    char b[160];
    String<> s{n + r(10)};
    s.set_length(n);
    for(u64 i = 0; i < n; i++) s[i] = (u8)('a' + i % 26);
    const String<>& c = s;
    String_View v = s.view();
    u64 i = bad_index(r, n, s.capacity());
    snprintf(b, sizeof b, "String of %lu, index %lu", n, i);
    switch(r(3)) { case 0: stops(b, [&] { use(s[i]); }); break; case 1: stops(b, [&] { use(c[i]); }); break; default: stops(b, [&] { use(v[i]); }); }
    u64 st = r(n + 1), en = st + r(n - st + 1);
    MON_CHECK(v.sub(st, en).length() == en - st && s.sub(st, en).length() == en - st, "failstop.valid", "sub(%lu, %lu) of %lu", st, en, n);
    mon::eval(2);
    if(r.chance(50)) { en = bad_index(r, n + 1, s.capacity()); if(r.chance(30)) st = bad_index(r, n + 1); }
    else if(n) { en = r(n); st = en + 1 + r(n - en); } else { st = 1; en = 0; }
    snprintf(b, sizeof b, "String of %lu, sub(%lu, %lu)", n, st, en);
    r.chance(50) ? stops(b, [&] { auto x = v.sub(st, en); if(x.length()) use(x[0]); }) : stops(b, [&] { auto x = c.sub(st, en); if(x.length()) use(x[0]); });
    u64 len = bad_index(r, s.capacity() + 1);
    snprintf(b, sizeof b, "String of capacity %lu, set_length(%lu)", s.capacity(), len);
    stops(b, [&] { s.set_length(len); });
    s.set_length(s.capacity());
    s.set_length(n);
    i = bad_index(r, n, s.capacity());
    snprintf(b, sizeof b, "String of %lu, write at %lu", n, i);
    String<> t = "some text"_v.string<Mdefault>();
    switch(r(3)) { case 0: stops(b, [&] { (void)s.write(i, 'x'); }); break; case 1: stops(b, [&] { (void)s.write(i, "some text"_v); }); break; default: stops(b, [&] { (void)s.write(i, t); }); }
    u64 k = n - std::min<u64>(n, r(9)); // too long a text from a valid place
    snprintf(b, sizeof b, "String of %lu, nine characters written at %lu", n, k);
    if(n - k < 9) r.chance(50) ? stops(b, [&] { (void)s.write(k, "nine char"_v); }) : stops(b, [&] { (void)s.write(k, t); });
    if(n >= 9) { MON_CHECK(s.write(n - 9, t) == n && s.write(n - 1, 'x') == n && s.write(n, ""_v) == n, "failstop.valid", "write"); }
}
template<typename K> static void maps(Rng& r) {
    Map<K, i32> m;
    std::map<i64, i32> ref;
    auto key = [](i64 x) { if constexpr(Same<K, String<>>) return format<Mdefault>("key %"_v, x); else return (K)x; };
    for(u64 k = r.chance(20) ? 0 : r(80); k; k--) { i64 x = (i64)r(40); if(r.chance(60)) { m.insert(key(x), (i32)x); ref[x] = (i32)x; } else { (void)m.try_erase(key(x)); ref.erase(x); } }
    if(r.chance(10)) { m.clear(); ref.clear(); }
    if(r.chance(10)) { Map<K, i32> w = rpp::move(m); ref.clear(); }
    const Map<K, i32>& c = m;
    for(auto& [k, v] : ref) MON_CHECK(m.get(key(k)) == v && c.get(key(k)) == v, "failstop.valid", "get %lld", (long long)k);
    mon::eval(2 * ref.size());
    i64 x = (i64)r(60);
    while(ref.count(x)) x++;
    char b[100];
    snprintf(b, sizeof b, "Map of %zu, missing key %lld", ref.size(), (long long)x);
    Expect e;
    string txt = Same<K, String<>> ? "key " + std::to_string(x) : std::to_string(x);
    e.text = txt.c_str();
    switch(r(4)) {
    case 0: stops(b, [&] { use(m.get(key(x))); }, e); break;
    case 1: stops(b, [&] { use(c.get(key(x))); }, e); break;
    case 2: stops(b, [&] { m.erase(key(x)); }, e); break;
    default: if constexpr(Same<K, String<>>) stops(b, [&] { String<> k = key(x); use(m.get(k.view())); }, e); else stops(b, [&] { m.erase(key(x)); }, e);
    }
    if(!ref.empty()) m.erase(key(ref.begin()->first));
}
struct Big { i64 a[6] = {}; void f() { sink += (u64)a[5]; } void g() const { sink += (u64)a[5]; } };
template<typename O> static void owner_of(Rng& r, const char* name, O& o) {
    const O& c = o;
    char b[100];
    snprintf(b, sizeof b, "%s empty", name);
    switch(r(4)) { case 0: stops(b, [&] { use(*o); }); break; case 1: stops(b, [&] { use(*c); }); break; case 2: stops(b, [&] { o->f(); }); break; default: stops(b, [&] { c->g(); }); }
}
static void owners(Rng& r) {
    { Opt<Big> o; if(r.chance(60)) { o.emplace(); o->f(); use(*o); if(r.chance(50)) o.clear(); else if(r.chance(50)) o = Opt<Big>{}; else { Opt<Big> p = rpp::move(o); use(*p); o.clear(); } mon::eval(2); } owner_of(r, "Opt", o); }
    { Box<Big> o; if(r.chance(60)) { o = Box<Big>{Big{}}; o->f(); use(*o); if(r.chance(50)) o = Box<Big>{}; else { Box<Big> p = rpp::move(o); use(*p); } mon::eval(2); } owner_of(r, "Box", o); }
    { Rc<Big> o; if(r.chance(60)) { o = Rc<Big>{Big{}}; auto d = o.dup(); use(*d); use(*o); if(r.chance(50)) o.clear(); else { Rc<Big> p = rpp::move(o); use(*p); } mon::eval(2); } owner_of(r, "Rc", o); }
    { Arc<Big> o; if(r.chance(60)) { o = Arc<Big>{Big{}}; auto d = o.dup(); use(*d); use(*o); if(r.chance(50)) o.clear(); else { Arc<Big> p = rpp::move(o); use(*p); } mon::eval(2); } owner_of(r, "Arc", o); }
    { Ref<Big> o; Big big; if(r.chance(50)) { o = Ref<Big>{big}; o->f(); use(*o); o = Ref<Big>{}; mon::eval(2); } owner_of(r, "Ref", o); }
    {
        i64 base = (i64)r(9);
        Function<i32(i32)> f{[base](i32 x) { return x + (i32)base; }};
        MON_CHECK(f(3) == 3 + base, "failstop.valid", "call");
        Function<i32(i32)> g = rpp::move(f);
        if(r.chance(50)) { Function<i32(i32)> h{[](i32 x) { return x; }}; h = rpp::move(g); MON_CHECK(h(4) == 4 + base, "failstop.valid", "call"); stops("calling a moved Function", [&] { sink += (u64)g(3); }); }
        stops("calling a moved Function", [&] { sink += (u64)f(3); });
        if(r.chance(30)) { g = rpp::move(f); stops("calling a Function assigned from an empty one", [&] { sink += (u64)g(3); }); }
        FunctionN<8, void()> h{[base] { sink += (u64)base; }}, k = rpp::move(h);
        k();
        mon::eval(3);
        stops("calling a moved FunctionN", [&] { h(); });
    }
}
struct Late { i32 x; };
static Async::Task<i32> forever(Async::Task<i32>& t) { co_return co_await t; }
static Async::Task<i32> held(Async::Task<i32>* self) { struct Never { bool await_ready() noexcept { return false; } void await_suspend(std::coroutine_handle<>) noexcept {} void await_resume() noexcept {} }; co_await Never{}; co_return 1; }
static void misc(Rng& r) {
    auto line = [](const char* what, int l, const char* text, auto f) { stops(what, f, Expect{"c30_failstop.cpp", l, text}); };
    i64 x = (i64)r(1000000);
    string txt = "value " + std::to_string(x) + " end";
    bool no = r.chance(200);
    line("assert", __LINE__, "Assert: x == 5 && no", [&] { i32 x = 4; assert(x == 5 && no); });
    line("die", __LINE__, txt.c_str(), [&] { die("value % end", x); });
    line("die without arguments", __LINE__, "just stop", [&] { die("just stop"); });
    line("RPP_UNREACHABLE", __LINE__, "Unreachable", [&] { RPP_UNREACHABLE; });
    line("assert in a region", __LINE__, "Assert: depth > 900", [&] { Region(A) { Vec<u8, Mregion<A>> v(100); Region(B) { Log_Indent { u64 depth = Region_Allocator::depth(); assert(depth > 900); } } } });
    line("assert in a profiled scope", __LINE__, "Assert: x < 0", [&] { Trace("outer") { Trace("inner") { assert(x < 0); } } });
    switch(r(16)) {
    case 0: stops("too few format arguments", [&] { (void)format<Mdefault>("% and %"_v, 1); }); break;
    case 1: stops("too many format arguments", [&] { (void)format<Mdefault>("only %"_v, 1, 2); }); break;
    case 2: stops("no format arguments", [&] { (void)format<Mdefault>("only %"_v); }); break;
    case 3: stops("a trailing percent sign", [&] { (void)format<Mdefault>("100%"_v); }); break;
    case 4: stops("unknown subscription", [&] { Log::unsubscribe(r.next()); }); break;
    case 5: stops("subscription cancelled twice", [&] { auto t = Log::subscribe([](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) {}); Log::unsubscribe(t); Log::unsubscribe(t); }); break;
    case 6: stops("malformed address", [&] { Net::Address a{"300.1.2.3"_v, 5}; use(a); }); break;
    case 7: stops("empty Range_Allocator", [&] { Range_Allocator<> a{0}; }); break;
    case 8: { Range_Allocator<> a{4096}; r.chance(50) ? stops("range of no size", [&] { (void)a.allocate(0, 4); }) : stops("range of no alignment", [&] { (void)a.allocate(16, 0); }); break; }
    case 9: { Range_Allocator<> a{4096}; auto p = a.allocate(16, 4); stops("ranges left", [&] { a.statistics().assert_clear(); }); a.free(*p); a.statistics().assert_clear(); break; }
    case 10: { u64 i = bad_index(r, 4); Mat4 m; const Mat4& c = m; use(m[3]); use(c[0]); r.chance(50) ? stops("matrix column", [&] { use(m[i]); }) : stops("matrix column", [&] { use(c[i]); }); break; }
    case 11: { u64 i = bad_index(r, Thread::hardware_threads()); stops("affinity to a missing core", [&] { Thread::set_affinity(i); }); break; }
    case 12: stops("region brands", [&] { Region(A) { Vec<u64, Mregion<A>> v; v.push(u64{1}); 
             Region(B) { for(u64 i = 0; i < 100; i++) v.push(u64{i}); } } }); break;
    case 13: stops("unhandled failure on another thread", [&] { Thread::Thread t{[&] { Vec<i32> v; use(v[r(9)]); }}; t.join(); }, Expect{nullptr, 0, nullptr, true}); break;
    case 14: stops("failure while other threads log", [&] { Vec<Thread::Thread<>> ts; for(int i = 0; i < 3; i++) ts.push(Thread::Thread<>{[] { for(int k = 0; k < 200; k++) info("noise %", k); }}); Map<i32, i32> m; use(m.get(3)); }, Expect{nullptr, 0, nullptr, true}); break;
    default: stops("failure in a log subscriber", [&] { Vec<i32> v; (void)Log::subscribe([&](Log::Level l, Thread::Id, Log::Time, Log::Location, String_View) { if(l == Log::Level::info) use(v[0]); }); info("trigger"); }, Expect{nullptr, 0, nullptr, false, true});
    }
    switch(r(12)) {
    case 0: stops("joining a moved thread", [&] { Thread::Thread<> t{[] {}}; Thread::Thread<> u = rpp::move(t); t.join(); }, Expect{nullptr, 0, nullptr, true}); break;
    case 1: stops("joining twice", [&] { Thread::Thread<> t{[] {}}; t.join(); t.join(); }); break;
    case 2: stops("joining a detached thread", [&] { Thread::Thread<> t{[] {}}; t.detach(); t.join(); }, Expect{nullptr, 0, nullptr, true}); break;
    case 3: stops("detaching no thread", [&] { Thread::Thread<> t; t.detach(); }); break;
    case 4: stops("id of no thread", [&] { Thread::Thread<> t; sink += t.id(); }); break;
    case 5: stops("awaiting no task", [&] { Async::Task<i32> t; sink += (u64)t.block(); }); break;
    case 6: stops("resuming no task", [&] { Async::Task<i32> t; t.resume(); }); break;
    case 7: stops("state of no task", [&] { Async::Task<i32> t; sink += t.done(); }); break;
    case 8: stops("task dropped while awaited", [&] { auto inner = new Async::Task<i32>(held(nullptr)); auto outer = forever(*inner); delete inner; }); break;
    case 9: stops("task moved away then awaited", [&] { auto a = held(nullptr); auto b = rpp::move(a); auto outer = forever(a); sink += (u64)outer.block(); }); break;
    case 10: stops("thread joins itself", [&] { Thread::Thread<>* t = nullptr; Thread::Flag go; Thread::Thread<> real{[&] { go.block(); t->join(); }}; t = &real; go.signal(); Thread::sleep(3000); }, Expect{nullptr, 0, nullptr, true}); break;
    default: { int mine = 0; stops("two threads fail at once", [&] { Thread::Flag go; auto f = [&] { go.block(); Vec<i32> v; use(v[7]); }; auto g = f; Thread::Thread<> a{rpp::move(f)}, b{rpp::move(g)}; go.signal(); a.join(); b.join(); }, Expect{nullptr, 0, nullptr, true}); (void)mine; }
    }
    if(r.chance(30)) { // writing the message fails: the program stops all the same
        mon::Child c = mon::in_child([&]() -> int { if(__lsan_disable) __lsan_disable(); int fd = open("/dev/full", O_WRONLY); int keep = dup(2); dup2(fd, 1); dup2(keep, 2); Vec<i32> v; use(v[3]); return 7; });
        mon::eval();
        MON_CHECK(c.signaled && c.sig == SIGTRAP && !mon::sanitizer_text(c.output), "failstop.end", "with an unwritable standard output: exit %d code %d sig %d: %s", c.exited, c.code, c.sig, c.output.c_str());
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C30", "hash of (violating call with arguments, stopping location)");
    Rng r(mon::S().seed);
    R_ = &r;
    u64 n = mon::n(100, 700);
    for(u64 i = 0; i < n; i++) {
        if(mon::want("vec")) { vecs<int>(r); vecs<Trk>(r); vecs<Pod>(r); vecs<String<>>(r); }
        if(mon::want("queue")) { queues<int>(r); queues<Trk>(r); queues<String<>>(r); }
        if(mon::want("tops")) { tops<int>(r); tops<Trk>(r); tops<String<>>(r); }
        if(mon::want("arrays")) { arrays<1>(r); arrays<7>(r); }
        if(mon::want("strings")) strings(r);
        if(mon::want("maps")) { maps<i32>(r); maps<String<>>(r); }
        if(mon::want("owners")) owners(r);
        if(mon::want("misc")) misc(r);
        mon::reg().case_end("fail stop");
    }
    reap(0);
    Profile::finalize();
    return mon::finish();
}
