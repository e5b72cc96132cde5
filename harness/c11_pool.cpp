// C11: Mpool and Free_List: blocks disjoint while live, constructed/destroyed once, all memory returned.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/box.h>
#include <rpp/vmath.h>
using namespace rpp;
extern "C" void __lsan_disable() __attribute__((weak));

template<int N, int AL = 1> struct alignas(AL) Raw { unsigned char b[N]; static constexpr bool trk = false; explicit Raw(int64_t s) { for(int i = 0; i < N; i++) b[i] = (unsigned char)(s * 7 + i); } bool ok(int64_t s) const { for(int i = 0; i < N; i++) if(b[i] != (unsigned char)(s * 7 + i)) return false; return true; } };
template<int N> struct Tr { Trk t; unsigned char b[N]; static constexpr bool trk = true; explicit Tr(int64_t s) : t(s) { for(int i = 0; i < N; i++) b[i] = (unsigned char)(s * 7 + i); } bool ok(int64_t s) const { for(int i = 0; i < N; i++) if(b[i] != (unsigned char)(s * 7 + i)) return false; return t.get() == s; } };
struct BA { constexpr static Literal name = "BA"; static inline std::map<void*, u64> live; static inline uint64_t calls = 0; static void* alloc(u64 n) { void* p = ::malloc(n); live[p] = n; calls++; return p; } static void free(void* p) { if(!p) return; if(!live.erase(p)) { mon::violation("pool.free", "backing block released twice"); return; } ::free(p); } };

template<typename T> struct Model {
    struct E { T* p; int64_t s; }; std::vector<E> live; std::map<uintptr_t, size_t> spans;
    bool add(T* p, int64_t s, const char* n) {
        mon::eval(); uintptr_t a = (uintptr_t)p; if(!p || a % alignof(T)) { mon::violation("pool.align", "%s: size %zu block at %p", n, sizeof(T), (void*)p); return false; }
        auto it = spans.upper_bound(a); if((it != spans.end() && it->first < a + sizeof(T)) || (it != spans.begin() && std::prev(it)->first + sizeof(T) > a)) { mon::violation("pool.overlap", "%s: size %zu block overlaps a live block", n, sizeof(T)); return false; }
        spans[a] = sizeof(T); live.push_back({p, s}); return true;
    }
    bool check(const char* n) { for(auto& e : live) if(!e.p->ok(e.s)) { mon::violation("pool.stable", "%s: a live %zu byte object changed", n, sizeof(T)); return false; } if(T::trk && mon::reg().live_now() != (int64_t)live.size()) { mon::violation("pool.lifetime", "%s: %lld objects alive expected %zu", n, (long long)mon::reg().live_now(), live.size()); return false; } return true; }
    E take(size_t k) { E e = live[k]; live[k] = live.back(); live.pop_back(); spans.erase((uintptr_t)e.p); return e; }
};
template<typename T> static void mpool(mon::Rng& r, int nops) {
    { Model<T> m; uint64_t h = sizeof(T); int bias = 30 + (int)r(50);
      for(int o = 0; o < nops; o++) { mon::ctx("Mpool size %zu step %d", sizeof(T), o); if(m.live.empty() || (int)r(100) < bias) { int64_t s = (int64_t)r(1000); T* p = Mpool::make<T>(s); if(!m.add(p, s, "Mpool")) return; } else { auto e = m.take(r(m.live.size())); if(!e.p->ok(e.s)) { mon::violation("pool.stable", "object changed"); return; } Mpool::destroy(e.p); } h = mon::mix(h, m.live.size()); if(r(10) == 0 || o % 16 == 0) if(!m.check("Mpool")) return; if(r(60) == 0) bias = 20 + (int)r(70); }
      if(!m.check("Mpool")) return; while(!m.live.empty()) Mpool::destroy(m.take(r(m.live.size())).p); mon::distinct(h); }
    mon::reg().case_end("Mpool history");
}
template<typename T> static void freelist(mon::Rng& r, int nops) {
    { Free_List<T, BA> l; Free_List<T, BA> other; Model<T> m; uint64_t h = sizeof(T) + 5; int bias = 30 + (int)r(50); size_t peak = 0; uint64_t calls0 = BA::calls; bool plain = true;
      for(int o = 0; o < nops; o++) {
          mon::ctx("Free_List size %zu step %d", sizeof(T), o); uint64_t op = r(100);
          if(m.live.empty() || (int)op < bias) { int64_t s = (int64_t)r(1000); T* p = l.make(s); if(!m.add(p, s, "Free_List")) return; peak = std::max(peak, m.live.size()); auto it = BA::live.find(p); if(it == BA::live.end() || it->second < sizeof(T)) { mon::violation("pool.backing", "block is not backed by enough memory"); return; } }
          else if(op < 96) { auto e = m.take(r(m.live.size())); if(!e.p->ok(e.s)) { mon::violation("pool.stable", "object changed"); return; } l.destroy(e.p); }
          else if(op == 96) { Free_List<T, BA> t(move(l)); l = move(t); } else if(op == 97) { l.clear(); plain = false; if(BA::live.size() != m.live.size()) { mon::violation("pool.clear", "clear left %zu backing blocks with %zu live objects", BA::live.size(), m.live.size()); return; } } else if(op == 98) { other = move(l); l = move(other); }
          else if(op == 99) { Free_List<T, BA> own; std::vector<T*> w; u64 k = 1 + r(5); for(u64 z = 0; z < k; z++) w.push_back(own.make(int64_t(z))); for(T* z : w) own.destroy(z); size_t before = BA::live.size(); plain = false;
              if(r(2)) { own = move(l); l = move(own); if(BA::live.size() != before - k) { mon::violation("pool.clear", "assigning over a list of %llu blocks returned %zu of them", (unsigned long long)k, before - BA::live.size()); return; } }
              else { l = move(own); u64 kept = BA::live.size(); if(kept != m.live.size() + k) { mon::violation("pool.clear", "%llu backing blocks after assignment, expected %zu live and %llu pooled", (unsigned long long)kept, m.live.size(), (unsigned long long)k); return; } } }
          h = mon::mix(h, m.live.size()); if(o % 16 == 0) if(!m.check("Free_List")) return;
          if(plain && BA::calls - calls0 != peak) { mon::violation("pool.recycle", "%llu backing blocks for a peak of %zu objects: destroyed blocks are not reused", (unsigned long long)(BA::calls - calls0), peak); return; }
      }
      if(!m.check("Free_List")) return; while(!m.live.empty()) l.destroy(m.take(r(m.live.size())).p); mon::distinct(h); }
    MON_CHECK(BA::live.empty(), "pool.returned", "%zu backing blocks never returned", BA::live.size()); for(auto& [p, n] : BA::live) ::free(p); BA::live.clear();
    mon::reg().case_end("Free_List history");
}
// Many threads; blocks freed by other threads; every live block carries its owner's stamp.
template<typename T> static void concurrent(mon::Rng& r, int iters) {
    struct E { T* p; int64_t s; }; std::vector<E> bin[3]; std::mutex mu[3]; std::mutex sm; std::unordered_set<T*> held; uint64_t seed = r.next(); std::atomic<uint64_t> handed{0}; std::vector<std::thread> th; int nt = 2 + (int)r(7); std::atomic<int> gate{0};
    for(int t = 0; t < nt; t++) th.emplace_back([&, t] {
        mon::Rng q(seed + (uint64_t)t); std::vector<E> mine; gate++; while(gate < nt) sched_yield();
        for(int i = 0; i < iters; i++) {
            uint64_t op = q(10); int k = (int)q(3);
            if(op < 5) { int64_t s = t * 1000 + (int64_t)q(1000); T* p = Mpool::make<T>(s); if((uintptr_t)p % alignof(T)) mon::violation("pool.align", "misaligned"); { std::lock_guard<std::mutex> g(sm); if(!held.insert(p).second) mon::violation("pool.double-handout", "a live %zu byte block was handed out again", sizeof(T)); } mine.push_back({p, s}); mon::eval(); }
            else if(op < 7 && !mine.empty()) { std::lock_guard<std::mutex> g(mu[k]); bin[k].push_back(mine.back()); mine.pop_back(); handed++; }
            else { E e{}; if(op == 7) { std::lock_guard<std::mutex> g(mu[k]); if(!bin[k].empty()) { e = bin[k].back(); bin[k].pop_back(); } } else if(!mine.empty()) { size_t j = q(mine.size()); e = mine[j]; mine[j] = mine.back(); mine.pop_back(); }
                if(e.p) { if(!e.p->ok(e.s)) mon::violation("pool.stable", "a live %zu byte object changed under another thread", sizeof(T)); { std::lock_guard<std::mutex> g(sm); held.erase(e.p); } Mpool::destroy(e.p); } }
        }
        for(auto& e : mine) { if(!e.p->ok(e.s)) mon::violation("pool.stable", "object changed"); { std::lock_guard<std::mutex> g(sm); held.erase(e.p); } Mpool::destroy(e.p); }
    });
    for(auto& t : th) t.join(); for(auto& b : bin) for(auto& e : b) { if(!e.p->ok(e.s)) mon::violation("pool.stable", "object changed"); Mpool::destroy(e.p); }
    mon::count("cross_thread_frees", handed); mon::distinct(mon::mix(seed, sizeof(T))); if(T::trk) mon::reg().case_end("concurrent Mpool");
}
// Finalisation returns every pooled block, and reports exactly those never destroyed.
static void finalise(mon::Rng& r) {
    uint64_t seed = r.next(); int leak = r(2) ? 0 : 1 + (int)r(4); mon::ctx("finalise leak %d", leak);
    mon::Child c = mon::in_child([&]() -> int { if(__lsan_disable) __lsan_disable(); mon::Rng q(seed); std::vector<Raw<20>*> a; std::vector<Raw<8, 8>*> b; for(int i = 0; i < 50; i++) { a.push_back(Mpool::make<Raw<20>>(i)); b.push_back(Mpool::make<Raw<8, 8>>(i)); if(q(2)) { Mpool::destroy(a.back()); a.pop_back(); } }
        while((int)a.size() > leak) { Mpool::destroy(a.back()); a.pop_back(); } for(auto* p : b) Mpool::destroy(p); leak = (int)a.size(); Profile::finalize(); return sys_net_allocs() == 0 ? 0 : 9; });
    mon::eval(); mon::distinct(seed); std::string want = mon::fmt("Unbalanced allocations: %d", leak);
    if(mon::sanitizer_text(c.output)) mon::violation("pool.finalise", "sanitizer: %s", c.output.substr(0, 800).c_str());
    else if(!c.exited || c.code != (leak ? 1 : 0)) mon::violation("pool.finalise", "leaking %d: exit %d code %d sig %d", leak, c.exited, c.code, c.sig);
    else if(leak && c.output.find(want) == std::string::npos) mon::violation("pool.finalise", "expected '%s'", want.c_str());
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C11", "random make/destroy histories per block size, Free_List histories on a recording backing allocator, concurrent rounds with cross-thread frees, finalisation in children; distinct by live-count sequence");
    mon::Rng r(mon::S().seed);
    if(mon::want("finalise")) for(uint64_t i = 0, n = mon::n(20, 300); i < n; i++) finalise(r);
    uint64_t n = mon::n(30, 1500);
    if(mon::want("mpool")) for(uint64_t i = 0; i < n; i++) { int k = 50 + (int)r(400); mpool<Raw<1>>(r, k); mpool<Raw<2, 2>>(r, k); mpool<Raw<3>>(r, k); mpool<Raw<7>>(r, k); mpool<Raw<8, 8>>(r, k); mpool<Raw<9>>(r, k); mpool<Raw<12, 4>>(r, k); mpool<Raw<16, 16>>(r, k); mpool<Raw<24, 8>>(r, k); mpool<Raw<48, 16>>(r, k); mpool<Raw<100, 4>>(r, k); mpool<Raw<4096>>(r, k / 4); mpool<Tr<1>>(r, k); mpool<Tr<50>>(r, k); }
    if(mon::want("freelist")) for(uint64_t i = 0; i < n; i++) { int k = 50 + (int)r(400); freelist<Raw<1>>(r, k); freelist<Raw<3>>(r, k); freelist<Raw<8, 8>>(r, k); freelist<Raw<16, 16>>(r, k); freelist<Raw<100, 4>>(r, k); freelist<Tr<1>>(r, k); freelist<Tr<90>>(r, k); }
    if(mon::want("concurrent")) for(uint64_t i = 0; i < n; i++) { int k = 100 + (int)r(400); concurrent<Raw<1>>(r, k); concurrent<Raw<12, 4>>(r, k); concurrent<Raw<48, 16>>(r, k); concurrent<Tr<8>>(r, k); concurrent<Raw<200>>(r, k); }
    mon::ctx("finalize"); Profile::finalize(); MON_CHECK(sys_net_allocs() == 0, "pool.returned", "%lld blocks kept after finalisation", (long long)sys_net_allocs());
    return mon::finish();
}
