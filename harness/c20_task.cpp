// C20: coroutine tasks. Random task trees suspended on a harness executor (one or many threads), directed races of
// completion against awaiting, blocking and dropping; frames, locals, bodies and resumptions are counted.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/async.h>
using namespace rpp;
using mon::fmt;
using mon::Rng;
using std::string;

static std::atomic<int64_t> g_frames{0}, g_made{0};
struct Frames { // counts coroutine frames; ASan sees a double free or a use after free
    static constexpr Literal name = "Frames";
    static void* alloc(u64 n) { g_frames.fetch_add(1, std::memory_order_relaxed); g_made.fetch_add(1, std::memory_order_relaxed); return ::malloc(n); }
    static void free(void* p) { g_frames.fetch_sub(1, std::memory_order_relaxed); ::free(p); }
};
template<typename R> using Task = Async::Task<R, Frames>;
using H = std::coroutine_handle<>;

static bool wait_for(std::function<bool()> f, double s = 20) {
    double end = mon::now() + s;
    while(!f()) { if(mon::now() > end) return false; usleep(20); }
    return true;
}
static void jitter(Rng& r) {
    switch(r(8)) {
    case 0: sched_yield(); break;
    case 1: usleep((useconds_t)r(50)); break;
    case 2: for(volatile int i = 0, n = (int)r(300); i < n; i = i + 1) {} break;
    default: break;
    }
}
// Executor: parked handles are resumed in random order.
struct Exec {
    std::mutex mu;
    std::vector<H> parked;
    std::atomic<uint64_t> parks{0}, resumed{0};
    bool take(Rng& r, H& h) {
        std::lock_guard<std::mutex> g(mu);
        if(parked.empty()) return false;
        size_t i = r(parked.size());
        h = parked[i];
        parked[i] = parked.back();
        parked.pop_back();
        return true;
    }
};
struct Park {
    Exec& e;
    bool await_ready() noexcept { return false; }
    void await_suspend(H h) noexcept { e.parks++; std::lock_guard<std::mutex> g(e.mu); e.parked.push_back(h); }
    void await_resume() noexcept { e.resumed++; }
};
// A local with a destructor that must run exactly once, without hiding races behind the registry's lock.
static std::atomic<int64_t> g_locals{0};
struct Local {
    u64* p; // heap payload: LSan/ASan see a missed or doubled destructor
    Local() : p(new u64(42)) { g_locals.fetch_add(1, std::memory_order_relaxed); }
    Local(const Local&) = delete;
    ~Local() { delete p; g_locals.fetch_sub(1, std::memory_order_relaxed); }
};
struct Val { // move-only-ish result with a heap payload
    u64* p = nullptr;
    Val() = default;
    explicit Val(u64 v) : p(new u64(v)) {}
    Val(Val&& o) noexcept : p(o.p) { o.p = nullptr; }
    Val& operator=(Val&& o) noexcept { if(this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    Val(const Val& o) noexcept : p(o.p ? new u64(*o.p) : nullptr) {}
    Val& operator=(const Val& o) noexcept { if(this != &o) { delete p; p = o.p ? new u64(*o.p) : nullptr; } return *this; }
    ~Val() { delete p; }
    u64 get() const { return p ? *p : ~0ull; }
};
struct Tally { std::atomic<int64_t> started{0}, finished{0}, awaits{0}, dropped{0}; };

// A random tree. The reference recomputes the value from the same seed without coroutines.
static u64 tree_ref(uint64_t seed, int depth, uint64_t& nodes);
struct Plan { int kids; bool pre, mid, post; std::vector<int> order; std::vector<bool> drop; int type; };
static Plan plan(uint64_t seed, int depth) {
    Rng r(seed);
    Plan p;
    p.kids = depth <= 0 ? 0 : (int)r(4);
    p.pre = r.chance(40); p.mid = r.chance(30); p.post = r.chance(30);
    p.type = (int)r(3);
    for(int i = 0; i < p.kids; i++) { p.order.push_back(i); p.drop.push_back(r.chance(12)); }
    for(size_t i = p.order.size(); i > 1; i--) std::swap(p.order[i - 1], p.order[r(i)]);
    return p;
}
static uint64_t kid_seed(uint64_t seed, int i) { return mon::mix(seed, (uint64_t)i + 1); }
static u64 tree_ref(uint64_t seed, int depth, uint64_t& nodes) {
    Plan p = plan(seed, depth);
    nodes++;
    u64 v = seed;
    std::vector<u64> k;
    for(int i = 0; i < p.kids; i++) k.push_back(tree_ref(kid_seed(seed, i), depth - 1, nodes));
    for(int i : p.order) if(!p.drop[(size_t)i]) v = mon::mix(v, k[(size_t)i]);
    return v;
}
static Task<Val> tree_val(Exec& e, Tally& t, uint64_t seed, int depth);
static Task<void> tree_void(Exec& e, Tally& t, uint64_t seed, int depth, u64* out);
static Task<u64> tree(Exec& e, Tally& t, uint64_t seed, int depth) {
    t.started++;
    Local l;
    Plan p = plan(seed, depth);
    if(p.pre) co_await Park{e};
    u64 v = seed;
    std::vector<Task<u64>> a((size_t)p.kids);
    std::vector<Task<Val>> b((size_t)p.kids);
    std::vector<Task<void>> c((size_t)p.kids);
    std::vector<u64> outs((size_t)p.kids); // plain: written by the child, read after awaiting it
    for(int i = 0; i < p.kids; i++) {
        size_t k = (size_t)i;
        uint64_t s = kid_seed(seed, i);
        if(p.drop[k]) { Task<u64> gone = tree(e, t, s, depth - 1); t.dropped++; continue; } // runs on by itself
        switch((s >> 7) % 3) {
        case 0: a[k] = tree(e, t, s, depth - 1); break;
        case 1: b[k] = tree_val(e, t, s, depth - 1); break;
        default: c[k] = tree_void(e, t, s, depth - 1, &outs[k]);
        }
    }
    if(p.mid) co_await Park{e};
    for(int i : p.order) {
        size_t k = (size_t)i;
        if(p.drop[k]) continue;
        Local inner;
        u64 got = 0;
        t.awaits++;
        if(a[k].ok()) got = co_await a[k];
        else if(b[k].ok()) { Val w = co_await b[k]; got = w.get(); }
        else { co_await c[k]; got = outs[k]; }
        Task<u64>* pa = &a[k];
        if(pa->ok() && !pa->done()) mon::violation("task.done", "done() is false after the task was awaited");
        v = mon::mix(v, got);
        if(*inner.p != 42) mon::violation("task.local", "a local of a suspended body changed");
    }
    if(p.post) co_await Park{e};
    t.finished++;
    if(seed & 32) { const u64& same = v; co_return same; } // the copying overload of return_value
    co_return v;
}
static Task<Val> tree_val(Exec& e, Tally& t, uint64_t seed, int depth) {
    t.started++;
    Local l;
    u64 v = co_await tree(e, t, seed, depth);
    t.finished++;
    if(seed & 8) { Val keep(v); co_return keep; } // lvalue return copies or moves
    if(seed & 16) { const Val keep(v); co_return keep; }
    co_return Val(v);
}
static Task<void> tree_void(Exec& e, Tally& t, uint64_t seed, int depth, u64* out) {
    t.started++;
    Local l;
    *out = co_await tree(e, t, seed, depth);
    t.finished++;
    co_return;
}
static void tree_case(Rng& r, int threads, bool take_by_block) {
    Exec e;
    Tally t;
    uint64_t seed = r.next();
    int depth = (int)r.range(0, threads ? 5 : 4);
    uint64_t nodes = 0;
    u64 want = tree_ref(seed, depth, nodes);
    std::atomic<bool> stop{false};
    std::vector<std::thread> ts;
    uint64_t s2 = r.next();
    std::atomic<int64_t> busy{0};
    auto work = [&](int id) {
        Rng q(s2 + (uint64_t)id);
        for(;;) {
            busy++;
            H h;
            if(e.take(q, h)) { if(q.chance(20)) jitter(q); h.resume(); busy--; continue; }
            busy--;
            if(stop) return;
            sched_yield();
        }
    };
    for(int i = 0; i < threads; i++) ts.emplace_back(work, i);
    {
        Task<u64> root = tree(e, t, seed, depth);
        if(!threads) {
            Rng q(s2);
            H h;
            bool fin = root.done();
            for(;;) {
                if(root.done() && !fin) fin = true;
                if(fin) MON_CHECK(t.finished >= 1, "task.done", "done() is true before the body finished");
                if(!e.take(q, h)) break;
                h.resume();
            }
            MON_CHECK(root.done(), "task.lost", "nothing is left to resume but the root task has not completed");
            if(root.done()) MON_CHECK(root.block() == want, "task.value", "the tree delivered a wrong value (%llu nodes)", (unsigned long long)nodes);
        } else if(take_by_block) {
            MON_CHECK(root.block() == want, "task.value", "block() delivered a wrong value (%llu nodes)", (unsigned long long)nodes);
        } else {
            if(!wait_for([&] { return root.done(); })) mon::violation("task.lost", "the root task never completed");
            else MON_CHECK(root.block() == want, "task.value", "the tree delivered a wrong value after done()");
        }
    }
    if(threads) { // dropped subtrees run on until nothing is parked
        if(!wait_for([&] { std::lock_guard<std::mutex> g(e.mu); return e.parked.empty() && busy == 0; })) {}
        stop = true;
        for(auto& x : ts) x.join();
        Rng q(1);
        H h;
        while(e.take(q, h)) h.resume();
    }
    MON_CHECK(t.started == t.finished, "task.once", "%lld bodies started, %lld finished", (long long)t.started.load(), (long long)t.finished.load());
    MON_CHECK(e.parks == e.resumed, "task.resume", "%llu suspensions, %llu resumptions", (unsigned long long)e.parks.load(), (unsigned long long)e.resumed.load());
    MON_CHECK(g_frames == 0, "task.frame", "%lld coroutine frames not freed", (long long)g_frames.load());
    MON_CHECK(g_locals == 0, "task.locals", "%lld locals of finished bodies not destroyed exactly once", (long long)g_locals.load());
    g_frames = 0;
    g_locals = 0;
    mon::eval(nodes);
    mon::count("tree_nodes", nodes);
    mon::count("suspensions", e.parks);
    mon::count("dropped_subtrees", (uint64_t)t.dropped.load());
    mon::distinct(mon::mix(seed, (uint64_t)threads));
}
// ---- directed races on one task
struct Shared { uint64_t plain = 0; std::atomic<int> body{0}, cont{0}, locals{0}; };
static Task<Val> one_body(Exec& e, Shared& s, u64 v) {
    Local l;
    co_await Park{e};
    s.body++;
    s.plain = v;
    if(v & 1) { const Val keep(v); co_return keep; }
    co_return Val(v);
}
static Task<u64> awaiter(Exec& e, Shared& s, Task<Val>& t) {
    Local l;
    co_await Park{e};
    Val got = co_await t;
    s.cont++;
    if(s.plain != got.get()) mon::violation("task.visibility", "a write of the body is not visible to its awaiter");
    co_return got.get();
}
static Task<u64> awaiter_own(Exec& e, Shared& s, Task<Val> t) { // owns what it awaits
    Local l;
    co_await Park{e};
    Val got = co_await t;
    s.cont++;
    if(s.plain != got.get()) mon::violation("task.visibility", "a write of the body is not visible to its awaiter");
    co_return got.get();
}
struct Pair_Runner { // two long-lived threads that run two actions as close together as possible
    std::atomic<uint64_t> gen{0}, done{0};
    std::function<void()> f[2];
    std::atomic<bool> stop{false};
    std::thread t[2];
    Pair_Runner() {
        for(int i = 0; i < 2; i++)
            t[i] = std::thread([this, i] {
                uint64_t seen = 0;
                for(;;) {
                    while(gen.load() == seen) if(stop) return; else sched_yield();
                    seen++;
                    f[i]();
                    done++;
                }
            });
    }
    void run(std::function<void()> a, std::function<void()> b) {
        f[0] = a; f[1] = b;
        done = 0;
        gen++;
        while(done < 2) sched_yield();
    }
    ~Pair_Runner() { stop = true; for(auto& x : t) x.join(); }
};
static void races(Rng& r, int rounds) {
    Pair_Runner pr;
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        int kind = (int)r(6);
        mon::ctx("race %d kind %d", k, kind);
        Exec e;
        Shared s_;
        Shared& s = mon::opaque(s_);
        u64 v = r.next() | 1;
        unsigned d0 = (unsigned)r(400), d1 = (unsigned)r(400);
        auto spin = [](unsigned n) { for(volatile unsigned i = 0; i < n; i = i + 1) {} };
        switch(kind) {
        case 0: case 1: { // completion against await_suspend
            Task<Val> t = one_body(e, s, v);
            H body = e.parked.back(); e.parked.clear();
            Task<u64> w = kind ? awaiter_own(e, s, rpp::move(t)) : awaiter(e, s, t);
            H aw = e.parked.back(); e.parked.clear();
            pr.run([&] { spin(d0); body.resume(); }, [&] { spin(d1); aw.resume(); });
            MON_CHECK(w.done(), "task.lost", "the awaiter was never resumed");
            MON_CHECK(s.cont == 1, "task.resume", "the awaiter ran %d times after its await", s.cont.load());
            if(w.done()) MON_CHECK(w.block() == v, "task.value", "the awaiter received a wrong value");
        } break;
        case 2: { // completion against dropping the handle
            auto t = std::make_unique<Task<Val>>(one_body(e, s, v));
            H body = e.parked.back(); e.parked.clear();
            pr.run([&] { spin(d0); body.resume(); }, [&] { spin(d1); t.reset(); });
        } break;
        case 3: { // block, take, drop at once while the body is still unwinding
            auto t = std::make_unique<Task<Val>>(one_body(e, s, v));
            H body = e.parked.back(); e.parked.clear();
            u64 got = 0, seen = 0;
            pr.run([&] { spin(d0); body.resume(); }, [&] { spin(d1); { Val x = t->block(); got = x.get(); seen = s.plain; } t.reset(); });
            MON_CHECK(got == v, "task.value", "block() delivered a wrong value");
            MON_CHECK(seen == v, "task.visibility", "a write of the body is not visible after block()");
        } break;
        case 4: { // poll done, then take
            Task<Val> t = one_body(e, s, v);
            H body = e.parked.back(); e.parked.clear();
            u64 got = 0;
            bool early = false;
            pr.run([&] { spin(d0); body.resume(); }, [&] {
                while(!t.done()) {}
                early = s.body.load(std::memory_order_relaxed) == 0;
                if(s.plain != v) mon::violation("task.visibility", "a write of the body is not visible after done()");
                Val x = t.block();
                got = x.get();
            });
            MON_CHECK(!early, "task.done", "done() was true before the body ran");
            MON_CHECK(got == v, "task.value", "a wrong value after done()");
        } break;
        default: { // moved between handles while the body runs elsewhere
            Task<Val> t = one_body(e, s, v);
            H body = e.parked.back(); e.parked.clear();
            u64 got = 0;
            pr.run([&] { spin(d0); body.resume(); }, [&] {
                Task<Val> a(rpp::move(t));
                if(t.ok() || !a.ok()) mon::violation("task.move", "move construction left two owners or none");
                Task<Val> b;
                if(b.ok()) mon::violation("task.move", "a default task claims to own a coroutine");
                spin(d1);
                b = rpp::move(a);
                Vec<Task<Val>> q;
                q.push(rpp::move(b));
                Val x = q[0].block();
                got = x.get();
            });
            MON_CHECK(got == v, "task.value", "a moved task delivered a wrong value");
        }
        }
        MON_CHECK(s.body == 1, "task.once", "the body ran %d times", s.body.load());
        if(kind == 0 || kind == 1) mon::count("await_races");
        else mon::count("drop_block_races");
        MON_CHECK(g_frames == 0, "task.frame", "%lld coroutine frames not freed after race kind %d", (long long)g_frames.load(), kind);
        MON_CHECK(g_locals == 0, "task.locals", "%lld locals not destroyed exactly once after race kind %d", (long long)g_locals.load(), kind);
        mon::eval();
        mon::distinct(mon::mix((uint64_t)kind, (d0 / 20) * 64 + d1 / 20));
    }
}
// ---- handles, Suspend/Continue/resume, then, long chains
static Task<u64> steps(int n, std::vector<int>& log) {
    Local l;
    for(int i = 0; i < n; i++) {
        log.push_back(i);
        if(i % 2) co_await Async::Continue{};
        co_await Async::Suspend{};
    }
    log.push_back(-1);
    co_return (u64)n;
}
static Task<u64> link(Task<u64>& prev) { co_return co_await prev + 1; }
static void handles(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("handle case %d", c);
        int n = (int)r(6);
        std::vector<int> log;
        {
            Task<u64> t = steps(n, log);
            bool drop = r.chance(25);
            for(int i = 0; i < n; i++) {
                MON_CHECK(!t.done(), "task.done", "done() is true at suspension %d of %d", i, n);
                MON_CHECK((int)log.size() == i + 1, "task.once", "%zu steps ran before suspension %d", log.size(), i);
                if(r.chance(30)) { Task<u64> u(rpp::move(t)); MON_CHECK(!t.ok() && u.ok(), "task.move", "move construction"); t = rpp::move(u); MON_CHECK(t.ok() && !u.ok(), "task.move", "move assignment"); }
                t.resume();
            }
            MON_CHECK(t.done(), "task.done", "done() is false after the body returned");
            if(!drop) MON_CHECK(t.block() == (u64)n, "task.value", "value");
        }
        std::vector<int> want;
        for(int i = 0; i < n; i++) want.push_back(i);
        want.push_back(-1);
        MON_CHECK(log == want, "task.once", "the body did not run its steps once in order");
        { // assignment abandons the old coroutine, which finishes by itself later
            Exec e;
            Shared s1, s2;
            Task<Val> t = one_body(e, s1, 1);
            t = one_body(e, s2, 2);
            MON_CHECK(s1.body == 0 && s2.body == 0, "task.once", "assignment ran a body");
            auto p = e.parked;
            e.parked.clear();
            if(r.chance(50)) std::swap(p[0], p[1]);
            for(auto h : p) h.resume();
            MON_CHECK(s1.body == 1 && s2.body == 1, "task.once", "bodies ran %d and %d times", s1.body.load(), s2.body.load());
            MON_CHECK(t.done() && t.block().get() == 2, "task.value", "the assigned task delivers another's value");
        }
        { // then
            Exec e;
            Shared s;
            int calls = 0;
            Exec* ep = &e;
            u64 v = r(1000);
            auto next = [&calls, ep](Val x) -> Task<u64> { calls++; u64 y = x.get(); co_await Park{*ep}; co_return y * 2; };
            Task<Val> t = one_body(e, s, v);
            Task<u64> u = t.then(next);
            MON_CHECK(calls == 0 && !u.done(), "task.then", "a continuation ran before its task completed");
            Rng q(r.next());
            H h;
            while(e.take(q, h)) h.resume();
            MON_CHECK(calls == 1, "task.then", "the continuation ran %d times, expected 1", calls);
            MON_CHECK(u.done() && u.block() == v * 2, "task.then", "continuation value");
        }
        MON_CHECK(g_frames == 0, "task.frame", "%lld coroutine frames not freed", (long long)g_frames.load());
        MON_CHECK(g_locals == 0, "task.locals", "%lld locals not destroyed", (long long)g_locals.load());
        mon::eval();
    }
    { // a long chain completes without using stack proportional to its length
        int n = 20000;
        mon::ctx("chain of %d tasks", n);
        Exec e;
        auto first = [](Exec& q) -> Task<u64> { co_await Park{q}; co_return 5; };
        std::vector<std::unique_ptr<Task<u64>>> v;
        v.push_back(std::make_unique<Task<u64>>(first(e)));
        for(int i = 0; i < n; i++) v.push_back(std::make_unique<Task<u64>>(link(*v.back())));
        Rng q(1);
        H h;
        while(e.take(q, h)) h.resume();
        MON_CHECK(v.back()->done(), "task.lost", "the end of a chain of %d tasks never completed", n);
        if(v.back()->done()) MON_CHECK(v.back()->block() == 5 + (u64)n, "task.value", "chain value");
        while(!v.empty()) v.pop_back();
        MON_CHECK(g_frames == 0, "task.frame", "chain frames not freed");
        mon::eval((uint64_t)n);
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C20", "hash of a task tree and its executor size, or of a race kind and its relative delays");
    Rng r(mon::S().seed);
    if(mon::want("handles")) handles(r, (int)mon::n(1500, 20000));
    if(mon::want("trees"))
        for(uint64_t i = 0, n = mon::n(6000, 100000); i < n && !mon::violations(); i++) { mon::ctx("tree %llu", (unsigned long long)i); tree_case(r, 0, false); }
    if(mon::want("threads"))
        for(uint64_t i = 0, n = mon::n(2000, 40000); i < n && !mon::violations(); i++) { mon::ctx("threaded tree %llu", (unsigned long long)i); tree_case(r, (int)r.range(1, 6), r.chance(60)); }
    if(mon::want("races")) races(r, (int)mon::n(40000, 800000));
    mon::count("frames_made", (uint64_t)g_made.load());
    Profile::finalize();
    return mon::finish();
}
