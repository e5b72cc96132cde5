// C17: profile frames. Each thread runs random scope programs with a recorded reference tree; iterate_timings must
// report exactly that tree. Samplers iterate concurrently; children exercise thread exit and finalisation mid-frame.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/thread.h>
using namespace rpp;
using mon::fmt;
using mon::Rng;
using std::string;

static string take(String_View v) { return v.length() ? string((const char*)v.data(), v.length()) : ""; }

struct SKey { // what identifies a scope under its parent
    string func, file; u64 line;
    bool operator<(const SKey& o) const { return std::tie(func, file, line) < std::tie(o.func, o.file, o.line); }
    bool operator==(const SKey& o) const { return func == o.func && file == o.file && line == o.line; }
};
struct Ref_Node { // reference tree: expected calls and clock bounds
    SKey key; u64 calls = 0, lo = 0, hi = 0; // lo/hi: bounds on total time
    u64 parent = 0; std::vector<u64> kids;
    u64 last_begin_lo = 0, last_begin_hi = 0, end_lo = 0, end_hi = 0;
};
struct Ref_Frame {
    std::vector<Ref_Node> nodes;
    u64 begin_lo = 0, begin_hi = 0, end_lo = 0, end_hi = 0;
};
struct Seen { SKey key; u64 begin, end, self, heir, calls, parent; std::vector<u64> kids; };

static std::vector<Seen> collect(u64 id) {
    std::vector<Seen> v;
    Profile::iterate_timings([&](Thread::Id t, const Profile::Timing_Node& n) {
        if((u64)t != id) return;
        Seen s{{take(n.loc.function), take(n.loc.file), n.loc.line}, n.begin, n.end, n.self_time, n.heir_time, n.calls, n.parent, {}};
        for(u64 c : n.children) s.kids.push_back(c);
        v.push_back(s);
    });
    return v;
}
static void spin(u64 ns) { u64 t = Profile::timestamp(); while(Profile::timestamp() - t < ns) {} }

// Names must outlive the profile; every name exists at several addresses, and equal names must merge.
static const char* name(Rng& r) {
    static const char* base[] = {"a", "b", "scope", "a long scope name that is shared", "", "ab"};
    static std::vector<const char*>* all = [] { auto* v = new std::vector<const char*>; for(int k = 0; k < 4; k++) for(auto b : base) v->push_back(strdup(b)); return v; }();
    return (*all)[r(all->size())];
}
static String_View sv(const char* p) { return String_View{(const u8*)p, strlen(p)}; }
static void program(Rng& r, Ref_Frame& f, u64 node, int depth, int& budget);
// One scope entry with the clock read on both sides of every call.
template<typename Enter, typename Leave>
static void scope(Rng& r, Ref_Frame& f, u64 parent, const SKey& k, int depth, int& budget, Enter&& enter, Leave&& leave) {
    u64 idx = ~0ull;
    for(u64 c : f.nodes[parent].kids) if(f.nodes[c].key == k) idx = c;
    if(idx == ~0ull) {
        idx = f.nodes.size();
        Ref_Node n; n.key = k; n.parent = parent;
        f.nodes.push_back(n);
        f.nodes[parent].kids.push_back(idx);
    }
    u64 t0 = Profile::timestamp();
    enter();
    u64 t1 = Profile::timestamp();
    if(r.chance(15)) spin(r(20000));
    program(r, f, idx, depth + 1, budget);
    u64 t2 = Profile::timestamp();
    leave();
    u64 t3 = Profile::timestamp();
    Ref_Node& n = f.nodes[idx];
    n.calls++;
    n.lo += t2 - t1; n.hi += t3 - t0;
    n.last_begin_lo = t0; n.last_begin_hi = t1; n.end_lo = t2; n.end_hi = t3;
}
static void program(Rng& r, Ref_Frame& f, u64 node, int depth, int& budget) {
    int n = (int)r(depth == 0 ? 12 : 5);
    for(int i = 0; i < n && budget > 0 && depth < 14; i++) {
        budget--;
        int how = (int)r(4);
        alignas(Profile::Scope) unsigned char buf[sizeof(Profile::Scope)];
        Profile::Scope* sc = (Profile::Scope*)buf;
        const char *nm = name(r), *fl = r.chance(50) ? "f.cpp" : "g.cpp";
        u64 line = r(3);
        if(how == 0)
            scope(r, f, node, SKey{nm, "", 0}, depth, budget, [&] { Profile::enter(sv(nm)); }, [&] { Profile::exit(); });
        else if(how == 1) {
            scope(r, f, node, SKey{nm, "", 0}, depth, budget, [&] { new(sc) Profile::Scope{sv(nm)}; }, [&] { sc->~Scope(); });
        } else if(how == 2) {
            scope(r, f, node, SKey{nm, fl, line}, depth, budget, [&] { Profile::enter(Log::Location{sv(nm), sv(fl), line}); }, [&] { Profile::exit(); });
        } else {
            int reps = (int)r.range(1, 4);
            for(int j = 0; j < reps; j++)
                scope(r, f, node, SKey{"looped", "", 0}, depth, budget, [&] { new(sc) Profile::Scope{"looped"_v}; }, [&] { sc->~Scope(); });
        }
    }
}
static void check_frame(const Ref_Frame& f, const std::vector<Seen>& got, const char* when) {
    mon::eval();
    if(got.size() != f.nodes.size()) {
        mon::violation("profile.tree-size", "%s: %zu nodes reported, %zu executed", when, got.size(), f.nodes.size());
        return;
    }
    for(size_t i = 0; i < got.size(); i++) { // the order of nodes is that of first entry
        const Seen& s = got[i];
        const Ref_Node& n = f.nodes[i];
        MON_CHECK(s.key == n.key, "profile.name", "%s: node %zu is '%s' (%s:%llu), executed '%s'", when, i, s.key.func.c_str(), s.key.file.c_str(), (unsigned long long)s.key.line, n.key.func.c_str());
        MON_CHECK(s.parent == n.parent, "profile.parent", "%s: node %zu has parent %llu, executed under %llu", when, i, (unsigned long long)s.parent, (unsigned long long)n.parent);
        MON_CHECK(s.kids == n.kids, "profile.children", "%s: node %zu lists %zu children, executed %zu", when, i, s.kids.size(), n.kids.size());
        MON_CHECK(s.calls == n.calls, "profile.calls", "%s: node %zu '%s' reports %llu calls, entered %llu times", when, i, n.key.func.c_str(), (unsigned long long)s.calls, (unsigned long long)n.calls);
        u64 lo = i ? n.lo : f.end_lo - f.begin_hi, hi = i ? n.hi : f.end_hi - f.begin_lo;
        MON_CHECK(s.heir >= lo && s.heir <= hi, "profile.total-time", "%s: node %zu '%s' total %llu ns, measured %llu..%llu over %llu calls", when, i, n.key.func.c_str(), (unsigned long long)s.heir, (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)n.calls);
        u64 kids = 0;
        bool kids_ok = true;
        for(u64 c : s.kids) { if(c >= got.size()) kids_ok = false; else kids += got[c].heir; }
        MON_CHECK(kids_ok, "profile.children", "%s: child index out of range", when);
        MON_CHECK(s.self + kids == s.heir, "profile.self-time", "%s: node %zu self %llu + children %llu != total %llu", when, i, (unsigned long long)s.self, (unsigned long long)kids, (unsigned long long)s.heir);
        u64 b0 = i ? n.last_begin_lo : f.begin_lo, b1 = i ? n.last_begin_hi : f.begin_hi, e0 = i ? n.end_lo : f.end_lo, e1 = i ? n.end_hi : f.end_hi;
        MON_CHECK(s.begin >= b0 && s.begin <= b1, "profile.begin", "%s: node %zu begin outside the entering call", when, i);
        MON_CHECK(s.end >= e0 && s.end <= e1, "profile.end", "%s: node %zu end outside the leaving call", when, i);
    }
}
static void thread_run(Rng& r, int frames, bool leave_open) {
    Ref_Frame prev;
    bool have = false;
    u64 me = (u64)Thread::this_id();
    u64 h = 1;
    for(int i = 0; i < frames && !mon::violations(); i++) {
        Ref_Frame f;
        f.nodes.resize(1);
        f.nodes[0].key = SKey{"Frame", "", 0};
        f.nodes[0].calls = 1;
        if(r.chance(20)) { Profile::enter("outside"_v); Profile::exit(); } // not in a frame: recorded nowhere
        f.begin_lo = Profile::timestamp();
        float dt = Profile::begin_frame();
        f.begin_hi = Profile::timestamp();
        if(have) {
            float lo = (float)((double)(f.begin_lo - prev.begin_hi) / 1e9), hi = (float)((double)(f.begin_hi - prev.begin_lo) / 1e9);
            MON_CHECK(dt >= lo * 0.9999f - 1e-7f && dt <= hi * 1.0001f + 1e-7f, "profile.frame-delta", "begin_frame returned %g s, measured %g..%g", dt, lo, hi);
        } else
            MON_CHECK(dt == 0.0f, "profile.frame-delta", "first begin_frame returned %g", dt);
        int budget = (int)(r.chance(10) ? 200 : r.range(0, 25));
        if(have && r.chance(50)) check_frame(prev, collect(me), "during the next frame");
        program(r, f, 0, 0, budget);
        if(r.chance(30)) { // memory traffic inside the frame
            Vec<u64, Mallocator<"prof">> v;
            for(u64 j = 0; j < 20; j++) v.push(j);
        }
        if(have && r.chance(50)) check_frame(prev, collect(me), "at the end of the next frame");
        if(leave_open && i + 1 == frames) return;
        f.end_lo = Profile::timestamp();
        Profile::end_frame();
        f.end_hi = Profile::timestamp();
        check_frame(f, collect(me), "after end_frame");
        for(auto& n : f.nodes) h = mon::mix(h, mon::mix(n.parent, n.calls) ^ mon::hstr(n.key.func));
        mon::count("frames");
        mon::count("nodes", f.nodes.size());
        for(auto& n : f.nodes) if(n.calls > 1) mon::count("nodes_entered_repeatedly");
        prev = f;
        have = true;
    }
    mon::distinct(h);
}
// Frames far larger than the random programs: hundreds of children under one scope, deep chains, one scope entered
// very often.
static void big_frame(Rng& r, int width, int depth, int repeats) {
    mon::ctx("frame with %d scopes under one, %d nested, one entered %d times", width, depth, repeats);
    static std::vector<char*>* names = new std::vector<char*>;
    while((int)names->size() < std::max(width, depth)) names->push_back(strdup(fmt("n%zu", names->size()).c_str()));
    Ref_Frame f;
    f.nodes.resize(1);
    f.nodes[0].key = SKey{"Frame", "", 0};
    f.nodes[0].calls = 1;
    int none = 0;
    auto enter = [&](u64 parent, const char* nm, u64 line) { // one scope, entered and left
        scope(r, f, parent, SKey{nm, "f.cpp", line}, 0, none, [&] { Profile::enter(Log::Location{sv(nm), "f.cpp"_v, line}); }, [&] { Profile::exit(); });
    };
    f.begin_lo = Profile::timestamp();
    Profile::begin_frame();
    f.begin_hi = Profile::timestamp();
    for(int pass = 0; pass < 2; pass++)
        for(int i = 0; i < width; i++) enter(0, (*names)[pass ? width - 1 - i : i], (u64)i);
    std::vector<u64> stack{0}; // a chain, then the same chain again
    for(int pass = 0; pass < 2; pass++) {
        std::vector<std::pair<u64, u64>> t;
        u64 at = 0;
        for(int i = 0; i < depth; i++) {
            SKey k{(*names)[i], "chain", (u64)i};
            u64 idx = ~0ull;
            for(u64 c : f.nodes[at].kids) if(f.nodes[c].key == k) idx = c;
            if(idx == ~0ull) { idx = f.nodes.size(); Ref_Node n; n.key = k; n.parent = at; f.nodes.push_back(n); f.nodes[at].kids.push_back(idx); }
            u64 t0 = Profile::timestamp();
            Profile::enter(Log::Location{sv((*names)[i]), "chain"_v, (u64)i});
            t.push_back({t0, Profile::timestamp()});
            at = idx;
        }
        for(int i = depth; i-- > 0;) {
            u64 t2 = Profile::timestamp();
            Profile::exit();
            u64 t3 = Profile::timestamp();
            Ref_Node& n = f.nodes[at];
            n.calls++;
            n.lo += t2 - t[i].second; n.hi += t3 - t[i].first;
            n.last_begin_lo = t[i].first; n.last_begin_hi = t[i].second; n.end_lo = t2; n.end_hi = t3;
            at = n.parent;
        }
    }
    for(int i = 0; i < repeats; i++) enter(0, "often", 7);
    f.end_lo = Profile::timestamp();
    Profile::end_frame();
    f.end_hi = Profile::timestamp();
    check_frame(f, collect((u64)Thread::this_id()), "after a large frame");
    mon::count("frames");
    mon::count("nodes", f.nodes.size());
}
static void sampler(std::atomic<bool>& stop) {
    uint64_t sampled = 0, rounds = 0;
    while(!stop) {
        std::map<u64, std::vector<Seen>> all;
        Profile::iterate_timings([&](Thread::Id t, const Profile::Timing_Node& n) {
            Seen s{{take(n.loc.function), take(n.loc.file), n.loc.line}, n.begin, n.end, n.self_time, n.heir_time, n.calls, n.parent, {}};
            for(u64 c : n.children) s.kids.push_back(c);
            all[(u64)t].push_back(s);
        });
        for(auto& [id, v] : all) {
            sampled++;
            for(size_t i = 0; i < v.size(); i++) {
                u64 kids = 0;
                for(u64 c : v[i].kids) {
                    if(c >= v.size() || c <= i || v[c].parent != i) { mon::violation("profile.sample-shape", "concurrently sampled tree is inconsistent at node %zu", i); return; }
                    kids += v[c].heir;
                }
                MON_CHECK(v[i].self + kids == v[i].heir, "profile.sample-times", "sampled node %zu: self %llu + children %llu != total %llu", i, (unsigned long long)v[i].self, (unsigned long long)kids, (unsigned long long)v[i].heir);
                MON_CHECK(v[i].end >= v[i].begin && v[i].calls > 0, "profile.sample-times", "sampled node %zu never ended", i);
            }
            if(!v.empty()) MON_CHECK(v[0].key.func == "Frame", "profile.sample-shape", "sampled frame does not start at its root");
        }
        rounds++;
        sched_yield();
    }
    mon::eval(rounds);
    mon::count("sampled_frames", sampled);
}
static void concurrent(Rng& r, int rounds) {
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("concurrent round %d", k);
        std::atomic<bool> stop{false};
        std::vector<std::thread> smp;
        for(int i = 0; i < 2; i++) smp.emplace_back([&] { sampler(stop); });
        std::vector<std::thread> th;
        int n = (int)r.range(2, 8);
        for(int i = 0; i < n; i++) {
            uint64_t s = r.next();
            int frames = r.chance(10) ? 0 : (int)r.range(1, r.chance(20) ? 60 : 12);
            bool open = r.chance(30);
            th.emplace_back([s, frames, open] { Rng q(s); thread_run(q, frames, open); });
            if(r.chance(40)) { th.back().join(); th.pop_back(); } // thread ids get reused
        }
        for(auto& t : th) t.join();
        stop = true;
        for(auto& t : smp) t.join();
        // every thread is gone: nothing of theirs may be reported
        u64 me = (u64)Thread::this_id(), others = 0;
        Profile::iterate_timings([&](Thread::Id t, const Profile::Timing_Node&) { if((u64)t != me) others++; });
        MON_CHECK(others == 0, "profile.dead-thread", "%llu nodes reported for threads that ended", (unsigned long long)others);
    }
}
// A callback that itself allocates and traces.
static void callbacks(Rng& r) {
    for(int mode = 0; mode < 3; mode++) {
        mon::ctx("iterate_timings callback mode %d", mode);
        std::thread([&] {
            Rng q(r.next());
            for(int i = 0; i < 3; i++) {
                Profile::begin_frame();
                { Profile::Scope s{"x"_v}; }
                if(i == 2 && mode == 1) break;
                Profile::end_frame();
            }
            u64 seen = 0;
            Profile::iterate_timings([&](Thread::Id, const Profile::Timing_Node& n) {
                if(mode < 2) { Vec<u64, Mallocator<"prof">> v; v.push(n.calls); }
                else { Profile::Scope s{"in callback"_v}; }
                seen++;
            });
            MON_CHECK(seen == 2, "profile.callback", "iterate_timings visited %llu nodes of 2", (unsigned long long)seen);
            if(mode == 1) Profile::end_frame();
            mon::eval();
        }).join();
    }
}
// Exit paths, run in children: each must end normally.
static void survives(const char* what, std::function<void()> fn) {
    mon::ctx("%s", what);
    auto c = mon::in_child([&] { fn(); return 0; });
    if(!c.exited || c.code != 0 || mon::sanitizer_text(c.output)) {
        string tail = c.output.size() > 600 ? c.output.substr(c.output.size() - 600) : c.output;
        mon::violation("profile.survive", "%s: %s (code %d, signal %d) %s", what, c.timed_out ? "never ended" : "the process did not end normally", c.code, c.sig, tail.c_str());
    }
    mon::eval();
    mon::count("exit_paths");
}
struct Holder { Vec<u64, Mallocator<"tls">> v; };
static thread_local Holder tls_holder;

int main(int argc, char** argv) {
    mon::init(argc, argv, "C17", "hash of the executed scope trees of one thread");
    Rng r(mon::S().seed);
    if(mon::want("sequential"))
        for(uint64_t i = 0, N = mon::n(120, 3000); i < N && !mon::violations(); i++) {
            mon::ctx("sequential thread %llu", (unsigned long long)i);
            uint64_t s = r.next();
            std::thread([s] { Rng q(s); thread_run(q, (int)q.range(1, q.chance(15) ? 80 : 10), q.chance(30)); }).join();
        }
    if(mon::want("large"))
        for(uint64_t i = 0, N = mon::n(4, 20); i < N && !mon::violations(); i++) {
            uint64_t s = r.next();
            std::thread([s] {
                Rng q(s);
                for(int k = 0; k < 3 && !mon::violations(); k++) big_frame(q, (int)q.range(60, 400), (int)q.range(15, 300), (int)q.range(1, k ? 300 : 70000));
            }).join();
        }
    if(mon::want("callbacks")) callbacks(r);
    if(mon::want("concurrent")) concurrent(r, (int)mon::n(25, 600));
    if(mon::want("exits")) {
        survives("thread ends inside a frame", [] { std::thread([] { Profile::begin_frame(); { Profile::Scope s{"x"_v}; } }).join(); });
        survives("thread ends between frames", [] { std::thread([] { Profile::begin_frame(); Profile::end_frame(); }).join(); });
        survives("thread that only traced", [] { std::thread([] { Profile::Scope s{"x"_v}; }).join(); });
        survives("thread-local container released at thread end", [] { std::thread([] { tls_holder.v.push(1); Profile::begin_frame(); Profile::end_frame(); }).join(); });
        survives("finalize inside a frame", [] { Profile::begin_frame(); { Profile::Scope s{"x"_v}; } Profile::finalize(); });
        survives("finalize between frames", [] { Profile::begin_frame(); Profile::end_frame(); Profile::finalize(); });
        survives("finalize without frames", [] { Profile::finalize(); });
        survives("frames after finalize", [] {
            Profile::begin_frame(); Profile::end_frame(); Profile::finalize();
            Profile::begin_frame(); { Profile::Scope s{"x"_v}; } Profile::end_frame();
            u64 n = 0;
            Profile::iterate_timings([&](Thread::Id, const Profile::Timing_Node&) { n++; });
            if(n != 2) _exit(3);
            Profile::finalize();
        });
        survives("finalizers run once", [] {
            static int a = 0;
            Profile::finalizer([] { a++; });
            Profile::finalizer([] { a += 10; });
            Profile::finalize();
            if(a != 11) _exit(3);
        });
    }
    if(mon::want("clock")) { // conversions
        for(uint64_t i = 0; i < 20000; i++) {
            u64 d = r.next() >> r(64);
            double want = (double)d / 1e6;
            float ms = Profile::ms(d), s = Profile::s(d);
            MON_CHECK(std::fabs(ms - want) <= want * 1e-6, "profile.ms", "ms(%llu) = %g", (unsigned long long)d, ms);
            MON_CHECK(std::fabs(s - want / 1e3) <= want / 1e3 * 1e-6, "profile.s", "s(%llu) = %g", (unsigned long long)d, s);
            mon::eval();
        }
    }
    Profile::finalize();
    return mon::finish();
}
