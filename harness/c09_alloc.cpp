// C09: allocation accounting: net counts, per-name statistics and leak reports, from any thread.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/box.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/heap.h>
#include <malloc.h>
using namespace rpp;
extern "C" void __lsan_disable() __attribute__((weak));

using A1 = Mallocator<"Verif-one">; using A2 = Mallocator<"Verif-two">; using A3 = Mallocator<"Verif 3, a longer name">; using AH = Mallocator<"Verif-hidden", false>;
using L1 = Mallocator<"Leak-one">; using L2 = Mallocator<"Leak-two">; using L3 = Mallocator<"Leak three: long name">; using LH = Mallocator<"Leak-hidden", false>;

struct Blk { unsigned char* p; u64 n; int a; unsigned char tag; };
template<typename X1, typename X2, typename X3, typename XH> struct Raw {
    static void* alloc(int a, u64 n) { return a == 0 ? X1::alloc(n) : a == 1 ? X2::alloc(n) : a == 2 ? X3::alloc(n) : XH::alloc(n); }
    static void free(int a, void* p) { a == 0 ? X1::free(p) : a == 1 ? X2::free(p) : a == 2 ? X3::free(p) : XH::free(p); }
};
using R = Raw<A1, A2, A3, AH>; using RL = Raw<L1, L2, L3, LH>;
static u64 rsize(mon::Rng& r) { switch(r(6)) { case 0: return 1 + r(8); case 1: return 1 + r(64); case 2: return 1 + r(1000); case 3: return 1ull << r(14); case 4: return (1ull << r(14)) + 1; default: return 1 + r(300); } }
static bool intact(const Blk& b) { for(u64 i = 0; i < b.n; i++) if(b.p[i] != (unsigned char)(b.tag + i)) return false; return true; }

// Raw blocks: disjoint, sized, stable; the net count follows every operation.
static void raw(mon::Rng& r, int nops) {
    { void* z = A1::alloc(64); A1::free(z); z = A2::alloc(64); A2::free(z); z = A3::alloc(64); A3::free(z); z = AH::alloc(64); AH::free(z); }
    i64 warm = sys_net_allocs(); std::vector<Blk> v; std::map<uintptr_t, u64> spans; uint64_t h = 3; i64 book = 0;
    for(int o = 0; o < nops; o++) {
        mon::ctx("raw step %d, %zu live", o, v.size());
        if(v.empty() || r(100) < 52) {
            Blk b{nullptr, rsize(r), (int)r(4), (unsigned char)r(256)}; b.p = (unsigned char*)R::alloc(b.a, b.n); mon::eval();
            if(!b.p || (uintptr_t)b.p % 16) { mon::violation("alloc.align", "block of %llu bytes at %p", (unsigned long long)b.n, (void*)b.p); return; }
            auto it = spans.upper_bound((uintptr_t)b.p); if(it != spans.end() && it->first < (uintptr_t)b.p + b.n) { mon::violation("alloc.overlap", "overlaps a live block"); return; } if(it != spans.begin()) { --it; if(it->first + it->second > (uintptr_t)b.p) { mon::violation("alloc.overlap", "overlaps a live block"); return; } }
            spans[(uintptr_t)b.p] = b.n; for(u64 i = 0; i < b.n; i++) b.p[i] = (unsigned char)(b.tag + i); v.push_back(b);
        } else { size_t k = r(v.size()); Blk b = v[k]; if(!intact(b)) { mon::violation("alloc.stable", "block contents changed"); return; } spans.erase((uintptr_t)b.p); R::free(b.a, b.p); v[k] = v.back(); v.pop_back(); }
        h = mon::mix(h, v.size() * 8 + (v.empty() ? 0 : (uint64_t)v.back().a));
        // The profiler's own tables may grow, by a bounded number of hidden blocks.
        i64 d = sys_net_allocs() - warm - (i64)v.size(); if(d < 0 || d > 3) { mon::violation("alloc.net", "net count %lld with %zu live blocks (baseline %lld)", (long long)sys_net_allocs(), v.size(), (long long)warm); return; } book = d;
    }
    for(auto& b : v) { if(!intact(b)) mon::violation("alloc.stable", "block contents changed"); R::free(b.a, b.p); }
    i64 d = sys_net_allocs() - warm; MON_CHECK(d == book, "alloc.net", "net count off by %lld after freeing everything", (long long)(d - book));
    MON_CHECK(A1::alloc(0) == nullptr && AH::alloc(0) == nullptr, "alloc.zero", "zero-byte allocation"); A1::free(nullptr); AH::free(nullptr); sys_free(nullptr); MON_CHECK(sys_net_allocs() - warm == book, "alloc.net", "zero/null operations changed the count");
    mon::distinct(h);
}
template<typename A> static void containers(mon::Rng& r) {
    i64 before = 0; auto body = [&](uint64_t seed) { mon::Rng q(seed);
        Vec<int, A> v; Vec<Vec<String<A>, A>, A> vv; Map<int, String<A>, A> m; Queue<String<A>, A> qu; Heap<int, A> hp; Stack<Vec<int, A>, A> st; Array<String<A>, 5> ar; String<A> s; Box<String<A>, A> bx; Rc<Vec<int, A>, A> rc; Arc<String<A>, A> arc; Opt<String<A>> op;
        auto str = [&]() { std::string t(1 + q(40), (char)('a' + q(26))); return String_View{(const u8*)t.data(), t.size()}.template string<A>(); };
        for(int o = 0; o < 120; o++) switch(q(22)) {
            case 0: v.push(o); break; case 1: if(!v.empty()) v.pop(); break; case 2: { Vec<String<A>, A> in; for(uint64_t i = q(5); i > 0; i--) in.push(str()); vv.push(move(in)); break; } case 3: if(!vv.empty()) vv.pop(); break;
            case 4: m.insert((int)q(20), str()); break; case 5: (void)m.try_erase((int)q(20)); break; case 6: qu.push(str()); break; case 7: if(!qu.empty()) qu.pop(); break; case 8: hp.push((int)q(50)); break; case 9: if(!hp.empty()) hp.pop(); break;
            case 10: { Vec<int, A> t; t.push(o); st.push(move(t)); break; } case 11: if(!st.empty()) st.pop(); break; case 12: ar[q(5)] = str(); break; case 13: s = str(); break; case 14: bx = Box<String<A>, A>(str()); break; case 15: { auto t = vv.clone(); vv = move(t); break; }
            case 16: { auto t = m.clone(); m = move(t); break; } case 17: qu.clear(); break; case 18: v.reserve(q(100)); break; case 19: rc = q(2) ? Rc<Vec<int, A>, A>(v.clone()) : rc.dup(); break; case 20: arc = Arc<String<A>, A>(str()); break; case 21: op = str(); if(q(2)) op.clear(); break; }
    };
    uint64_t seed = r.next(); body(seed); before = sys_net_allocs(); mon::eval();   // warmed up with the identical history
    for(int i = 0; i < 3; i++) body(seed);
    MON_CHECK(sys_net_allocs() == before, "alloc.net", "containers left %lld blocks behind (allocator %s)", (long long)(sys_net_allocs() - before), A::name.c_string); mon::distinct(mon::mix(seed, mon::hstr(A::name.c_string)));
}
struct Stats { i64 allocs = 0, frees = 0, asize = 0, fsize = 0, live = 0, high = 0; bool used = false; };
static std::map<std::string, std::map<std::string, long long>> parse(const std::string& out, long long& net, bool& clean) {
    std::map<std::string, std::map<std::string, long long>> res; std::string cur; net = -1; clean = false; size_t p = 0;
    while(p < out.size()) { size_t e = out.find('\n', p); if(e == std::string::npos) e = out.size(); std::string l = out.substr(p, e - p); p = e + 1; size_t k;
        if((k = l.find("Allocation stats for [")) != std::string::npos) { size_t b = k + 22, c = l.find("]:", b); cur = l.substr(b, c - b); res[cur]; }
        if((k = l.find("Unbalanced allocations: ")) != std::string::npos) net = atoll(l.c_str() + k + 24);
        if(l.find("No memory leaked.") != std::string::npos) { clean = true; net = 0; }
        for(const char* f : {"Allocs: ", "Frees: ", "High water: ", "Alloc size: ", "Free size: ", "Unbalanced size: "}) if((k = l.find(std::string("\t") + f)) != std::string::npos) res[cur][f] = atoll(l.c_str() + k + 1 + strlen(f)); }
    return res;
}
// A child process allocates under several names (in one or many threads), leaks a known set and finalises.
static void leaks(mon::Rng& r, int mode, bool huge) {
    uint64_t seed = r.next(); int threads = mode == 0 ? 1 : 2 + (int)r(5); bool leak = r(3) != 0; bool cross = r(2);
    // The model is computed by replaying the same decisions in the parent.
    Stats st[4]; i64 total_live = 0; int nops = 20 + (int)r(r(4) ? 120 : 700), bias = 50 + (int)r(3) * 20 + (int)r(11);
    auto run = [&](bool real) {
        std::vector<std::vector<Blk>> live((size_t)threads); std::vector<std::thread> th; std::mutex mu; Stats loc[4];
        auto body = [&](int t) { if(real && __lsan_disable) __lsan_disable(); mon::Rng q(seed + (uint64_t)t * 77); auto& v = live[(size_t)t]; Stats s[4];
            for(int o = 0; o < nops; o++) { if(v.empty() || (int)q(100) < bias) { Blk b{nullptr, q(40) ? rsize(q) : 1 + q(1u << 22), (int)q(4), 0}; if(huge && t == 0 && o < 2) { b.n = (5ull << 30) + (u64)o; b.a = o; } if(real) { b.p = (unsigned char*)RL::alloc(b.a, b.n); memset(b.p, 7, std::min<u64>(b.n, 5000)); b.p[b.n - 1] = 9; } v.push_back(b); s[b.a].allocs++; s[b.a].asize += (i64)b.n; s[b.a].live += (i64)b.n; s[b.a].high = std::max(s[b.a].high, s[b.a].live); s[b.a].used = true; }
                else { size_t k = q(v.size()); Blk b = v[k]; if(real) RL::free(b.a, b.p); v[k] = v.back(); v.pop_back(); s[b.a].frees++; s[b.a].fsize += (i64)b.n; s[b.a].live -= (i64)b.n; } }
            if(!leak || q(2)) if(!cross) { for(auto& b : v) { if(real) RL::free(b.a, b.p); s[b.a].frees++; s[b.a].fsize += (i64)b.n; s[b.a].live -= (i64)b.n; } v.clear(); }
            std::lock_guard<std::mutex> g(mu); for(int i = 0; i < 4; i++) { loc[i].allocs += s[i].allocs; loc[i].frees += s[i].frees; loc[i].asize += s[i].asize; loc[i].fsize += s[i].fsize; loc[i].live += s[i].live; loc[i].high = std::max(loc[i].high, s[i].high); loc[i].used |= s[i].used; } };
        if(threads == 1 || !real) for(int t = 0; t < threads; t++) body(t); else { for(int t = 0; t < threads; t++) th.emplace_back(body, t); for(auto& t : th) t.join(); }
        if(cross) { mon::Rng q(seed ^ 99); for(auto& v : live) for(auto& b : v) if(!leak || q(2)) { if(real) RL::free(b.a, b.p); loc[b.a].frees++; loc[b.a].fsize += (i64)b.n; loc[b.a].live -= (i64)b.n; b.n = 0; } for(auto& v : live) { std::vector<Blk> keep; for(auto& b : v) if(b.n) keep.push_back(b); v = keep; } }
        if(!real) { for(int i = 0; i < 4; i++) st[i] = loc[i]; total_live = 0; for(auto& v : live) total_live += (i64)v.size(); }
    };
    run(false); mon::ctx("leak report: %d threads, %d ops, leak %d cross %d, %lld blocks leaked", threads, nops, leak, cross, (long long)total_live);
    mon::Child c = mon::in_child([&]() -> int { run(true); Profile::finalize(); return 0; });
    mon::eval(); mon::distinct(mon::mix(seed, (uint64_t)threads));
    if(mon::sanitizer_text(c.output)) { mon::violation("alloc.child-sanitizer", "%s", c.output.substr(0, 1500).c_str()); return; }
    if(huge && c.timed_out) { mon::count("huge_reports_timed_out"); return; } // blocks of 5 GB may be slow where memory is touched
    if(!c.exited || c.code != (total_live ? 1 : 0)) { mon::violation("alloc.leak-exit", "finalize with %lld leaked blocks ended with exit %d code %d signal %d", (long long)total_live, c.exited, c.code, c.sig); return; }
    long long net; bool clean; auto res = parse(c.output, net, clean);
    MON_CHECK(net == total_live && clean == (total_live == 0), "alloc.leak-report", "reported %lld leaked allocations, %lld really live", net, (long long)total_live);
    const char* names[] = {"Leak-one", "Leak-two", "Leak three: long name"};
    for(int i = 0; i < 3; i++) {
        if(!st[i].used) { MON_CHECK(!res.count(names[i]), "alloc.stats", "unused name %s reported", names[i]); continue; }
        if(!res.count(names[i])) { mon::violation("alloc.stats", "no statistics for %s", names[i]); continue; }
        auto& g = res[names[i]];
        if(g["Allocs: "] != st[i].allocs || g["Frees: "] != st[i].frees || g["Alloc size: "] != st[i].asize || g["Free size: "] != st[i].fsize) mon::violation("alloc.stats", "%s: reported %lld/%lld allocs/frees and %lld/%lld bytes, expected %lld/%lld and %lld/%lld", names[i], g["Allocs: "], g["Frees: "], g["Alloc size: "], g["Free size: "], (long long)st[i].allocs, (long long)st[i].frees, (long long)st[i].asize, (long long)st[i].fsize);
        if(threads == 1 ? g["High water: "] != st[i].high : (g["High water: "] < st[i].high || g["High water: "] > st[i].asize)) mon::violation("alloc.high-water", "%s: high water %lld expected %lld", names[i], g["High water: "], (long long)st[i].high);
        if((g.count("Unbalanced size: ") ? g["Unbalanced size: "] : 0) != st[i].live || g.count("Unbalanced size: ") != (st[i].live != 0)) mon::violation("alloc.leak-report", "%s: unbalanced size %lld expected %lld", names[i], g.count("Unbalanced size: ") ? g["Unbalanced size: "] : 0, (long long)st[i].live);
    }
    MON_CHECK(!res.count("Leak-hidden"), "alloc.stats", "hidden allocator reported");
    mon::sample(mon::fmt("%d threads, %d ops each, %lld blocks leaked: report %lld, exit %d", threads, nops, (long long)total_live, net, c.code));
}
static void threads(mon::Rng& r) { // blocks allocated on one thread and freed on another, net count exact at quiescence
    std::vector<Blk> pool[4]; std::mutex mu[4]; uint64_t seed = r.next(); { void* p = A1::alloc(10); A1::free(p); }
    auto phase = [&](bool drain) { std::vector<std::thread> th; for(int t = 0; t < 6; t++) th.emplace_back([&, t] { mon::Rng q(seed + (uint64_t)t + (drain ? 1000 : 0));
        for(int o = 0; o < 300; o++) { int k = (int)q(4); if(!drain && q(2)) { Blk b{nullptr, rsize(q), (int)q(4), (unsigned char)q(256)}; b.p = (unsigned char*)R::alloc(b.a, b.n); for(u64 i = 0; i < b.n; i++) b.p[i] = (unsigned char)(b.tag + i); std::lock_guard<std::mutex> g(mu[k]); pool[k].push_back(b); }
            else { Blk b{}; { std::lock_guard<std::mutex> g(mu[k]); if(pool[k].empty()) continue; b = pool[k].back(); pool[k].pop_back(); } if(!intact(b)) mon::violation("alloc.stable", "block changed while owned by one thread"); R::free(b.a, b.p); } mon::eval(); } }); for(auto& t : th) t.join(); };
    i64 before = sys_net_allocs(); phase(false); size_t live = 0; for(auto& p : pool) live += p.size(); i64 d = sys_net_allocs() - before - (i64)live;
    MON_CHECK(d >= 0 && d <= 12, "alloc.net", "net count off by %lld with %zu live blocks", (long long)d, live);
    for(auto& p : pool) { for(auto& b : p) R::free(b.a, b.p); p.clear(); } MON_CHECK(sys_net_allocs() - before == d, "alloc.net", "net count off by %lld after a concurrent phase", (long long)(sys_net_allocs() - before - d)); mon::distinct(seed);
}
template<int N> struct Obj { unsigned char b[N]; };
// Pool blocks are accounted under the pool's own name: peak blocks allocated, free ones returned by finalisation.
struct PoolModel { i64 peak = 0, live = 0; };
template<int N> static void pool_ops(mon::Rng& q, bool real, std::map<int, PoolModel>& m, bool leak) {
    PoolModel& p = m[N]; std::vector<Obj<N>*> v; i64 n = 0;
    for(uint64_t k = 1 + q(20); k; k--) { if(!n || q(100) < 60) { if(real) { v.push_back(Mpool::make<Obj<N>>()); memset(v.back(), (int)k, N); } n++; p.peak = std::max(p.peak, n); } else { if(real) { Mpool::destroy(v.back()); v.pop_back(); } n--; } }
    uint64_t keep = leak ? q(3) : 0; while(n > (i64)keep) { if(real) { Mpool::destroy(v.back()); v.pop_back(); } n--; }
    p.live = n;
}
static void pools(mon::Rng& r) {
    uint64_t seed = r.next(); bool leak = r(3) != 0;
    auto run = [&](bool real, std::map<int, PoolModel>& m) { mon::Rng q(seed); pool_ops<1>(q, real, m, leak); pool_ops<8>(q, real, m, leak); pool_ops<9>(q, real, m, leak); pool_ops<16>(q, real, m, leak); pool_ops<24>(q, real, m, leak); pool_ops<48>(q, real, m, leak); pool_ops<88>(q, real, m, leak); pool_ops<99>(q, real, m, leak); pool_ops<100>(q, real, m, leak); pool_ops<109>(q, real, m, leak); pool_ops<128>(q, real, m, leak); pool_ops<987>(q, real, m, leak); pool_ops<1000>(q, real, m, leak); pool_ops<65536>(q, real, m, leak); };
    std::map<int, PoolModel> m; run(false, m); i64 total = 0; for(auto& [n, p] : m) total += p.live;
    mon::ctx("pool leak report: %lld objects leaked", (long long)total);
    mon::Child c = mon::in_child([&]() -> int { if(__lsan_disable) __lsan_disable(); std::map<int, PoolModel> x; run(true, x); Profile::finalize(); return 0; });
    mon::eval(); mon::distinct(mon::mix(seed, 12)); mon::count("pool_reports");
    if(mon::sanitizer_text(c.output)) { mon::violation("alloc.child-sanitizer", "%s", c.output.substr(0, 1500).c_str()); return; }
    if(!c.exited || c.code != (total ? 1 : 0)) { mon::violation("alloc.leak-exit", "finalize with %lld leaked pool objects ended with exit %d code %d signal %d", (long long)total, c.exited, c.code, c.sig); return; }
    long long net; bool clean; auto res = parse(c.output, net, clean); MON_CHECK(net == total, "alloc.leak-report", "reported %lld leaked pool blocks, %lld really live", net, (long long)total);
    for(auto& [n, p] : m) { std::string name = mon::fmt("Pool<%d>", n); if(!p.peak) { MON_CHECK(!res.count(name), "alloc.stats", "unused %s reported", name.c_str()); continue; }
        if(!res.count(name)) { mon::violation("alloc.stats", "no statistics for %s", name.c_str()); continue; } auto& g = res[name];
        // The backing block may be larger than the object, by one constant per pool.
        long long per = p.peak ? g["Alloc size: "] / p.peak : 0, unbal = g.count("Unbalanced size: ") ? g["Unbalanced size: "] : 0;
        if(g["Allocs: "] != p.peak || g["Frees: "] != p.peak - p.live || per < n || per > n + 64 || g["Alloc size: "] != per * p.peak || g["Free size: "] != per * (p.peak - p.live) || unbal != per * p.live) mon::violation("alloc.stats", "%s: reported %lld/%lld blocks, %lld/%lld bytes, %lld unbalanced; expected %lld/%lld blocks, %lld live", name.c_str(), g["Allocs: "], g["Frees: "], g["Alloc size: "], g["Free size: "], unbal, (long long)p.peak, (long long)(p.peak - p.live), (long long)p.live);
    }
}
// Addresses recycled between threads at once: every event must still be accounted to the right block.
static void recycle(mon::Rng& r) {
    uint64_t seed = r.next(); int nt = 2 + (int)r(6), iters = 200; u64 size = 1100 + r(3000); mon::ctx("recycling %d threads, blocks of %llu", nt, (unsigned long long)size);
    mon::Child c = mon::in_child([&]() -> int {
        if(__lsan_disable) __lsan_disable(); mallopt(M_ARENA_MAX, 1); std::mutex mu; std::vector<void*> bin; std::vector<std::thread> th; std::atomic<i64> allocs{0}, frees{0}; std::mutex seen_mu; std::map<void*, int> owner; std::atomic<u64> crossed{0};
        for(int t = 0; t < nt; t++) th.emplace_back([&, t] { mon::Rng q(seed + (uint64_t)t);
            for(int i = 0; i < iters; i++) { if(q(2)) { void* p = L1::alloc(size); allocs++; { std::lock_guard<std::mutex> g(seen_mu); auto it = owner.find(p); if(it != owner.end() && it->second != t) crossed++; owner[p] = t; } std::lock_guard<std::mutex> g(mu); bin.push_back(p); }
                else { void* p = nullptr; { std::lock_guard<std::mutex> g(mu); if(!bin.empty()) { p = bin.back(); bin.pop_back(); } } if(p) { L1::free(p); frees++; } } } });
        for(auto& t : th) t.join(); for(void* p : bin) { L1::free(p); frees++; } ::printf("LEDGER %lld %lld crossed %llu\n", (long long)allocs.load(), (long long)frees.load(), (unsigned long long)crossed.load()); fflush(stdout); Profile::finalize(); return 0; });
    mon::eval(); mon::distinct(mon::mix(seed, 13)); long long a = -1, f = -1; unsigned long long x = 0; size_t k = c.output.find("LEDGER "); if(k == std::string::npos || sscanf(c.output.c_str() + k, "LEDGER %lld %lld crossed %llu", &a, &f, &x) != 3) { if(mon::sanitizer_text(c.output)) mon::violation("alloc.child-sanitizer", "%s", c.output.substr(0, 1500).c_str()); else if(!c.timed_out) mon::violation("alloc.recycle", "the workload stopped: %s", c.output.substr(0, 400).c_str()); return; }
    mon::count("recycled_between_threads", x); if(mon::sanitizer_text(c.output)) { mon::violation("alloc.child-sanitizer", "%s", c.output.substr(0, 1500).c_str()); return; }
    if(!c.exited || c.code) { mon::violation("alloc.leak-exit", "finalize of a balanced recycling workload ended with exit %d code %d signal %d: %s", c.exited, c.code, c.sig, c.output.substr(0, 400).c_str()); return; }
    long long net; bool clean; auto res = parse(c.output, net, clean); auto& g = res["Leak-one"];
    if(net != 0 || g["Allocs: "] != a || g["Frees: "] != f || g["Alloc size: "] != a * (long long)size || g["Free size: "] != f * (long long)size) mon::violation("alloc.stats", "recycled blocks: reported %lld/%lld and %lld/%lld bytes, expected %lld/%lld of %llu bytes", g["Allocs: "], g["Frees: "], g["Alloc size: "], g["Free size: "], a, f, (unsigned long long)size);
    MON_CHECK(c.output.find("reallocated") == std::string::npos && c.output.find("with no entry") == std::string::npos, "alloc.stats", "recycled blocks were reported as reallocated or freed twice");
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C09", "random raw allocation histories, container histories per allocator, child processes that leak a known set and finalise, and concurrent allocate/free rounds; distinct by history");
    mon::Rng r(mon::S().seed);
    if(mon::want("leaks")) for(uint64_t i = 0, n = mon::n(60, 1200); i < n; i++) leaks(r, (int)(i % 2), i % 20 == 4 || i % 20 == 11); // first: forks while single-threaded
    if(mon::want("pools")) for(uint64_t i = 0, n = mon::n(25, 500); i < n; i++) pools(r);
    if(mon::want("recycle")) for(uint64_t i = 0, n = mon::n(15, 300); i < n; i++) recycle(r);
    if(mon::want("raw")) for(uint64_t i = 0, n = mon::n(40, 1500); i < n; i++) raw(r, 100 + (int)r(500));
    if(mon::want("containers")) for(uint64_t i = 0, n = mon::n(60, 3000); i < n; i++) { containers<A1>(r); containers<A3>(r); containers<Mdefault>(r); containers<AH>(r); }
    if(mon::want("threads")) for(uint64_t i = 0, n = mon::n(15, 300); i < n; i++) threads(r);
    mon::ctx("finalize"); Profile::finalize();
    MON_CHECK(sys_net_allocs() == 0, "alloc.net", "net count %lld after finalisation", (long long)sys_net_allocs());
    return mon::finish();
}
