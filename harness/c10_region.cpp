// C10: region memory is disjoint, stable, aligned, released together; depth/size restored; brands enforced.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/vmath.h>
using namespace rpp;
extern "C" void __lsan_disable() __attribute__((weak));

struct Blk { unsigned char* p; u64 n; unsigned char tag; };
static void fill(Blk& b) { for(u64 i = 0; i < b.n; i++) b.p[i] = (unsigned char)(b.tag + i * 3); }
static bool intact(const Blk& b) { for(u64 i = 0; i < b.n; i++) if(b.p[i] != (unsigned char)(b.tag + i * 3)) return false; return true; }

struct Prog { // one thread's random nested region program
    mon::Rng r; int max_depth; uint64_t h = 1; u64 requested = 0; std::map<uintptr_t, u64> live; int opened = 0, deepest = 0; bool bad = false; std::string tr;
    std::vector<std::vector<Blk>> frames; // blocks of every open region
    Prog(uint64_t s, int d) : r(s), max_depth(d) {}
    u64 size() { switch(r(9)) { case 0: return 1 + r(15); case 1: return 1 + r(100); case 2: return 8 * r(20); case 3: return 900 + r(200); case 4: return 1 + r(6000); case 5: return r(30) == 0 ? 1 + r(200000) : 3; case 6: return 0; case 7: return 992 - r(4) * 16; default: return 1 + r(40); } }
    template<u64 R> void block() {
        u64 n = size(); Blk b{(unsigned char*)Mregion<R>::alloc(n), n, (unsigned char)r(256)}; mon::eval(); requested += n; h = mon::mix(h, n);
        if(!b.p) { mon::violation("region.null", "allocation of %llu bytes is null", (unsigned long long)n); bad = true; return; }
        if((uintptr_t)b.p % 16) { mon::violation("region.align", "%llu bytes at %p", (unsigned long long)n, (void*)b.p); bad = true; return; }
        if(n) { auto it = live.upper_bound((uintptr_t)b.p); if(it != live.end() && it->first < (uintptr_t)b.p + n) bad = true; if(it != live.begin()) { --it; if(it->first + it->second > (uintptr_t)b.p) bad = true; } if(bad) { mon::violation("region.overlap", "%llu bytes overlap a live block", (unsigned long long)n); return; } live[(uintptr_t)b.p] = n; fill(b); frames.back().push_back(b); }
    }
    bool all_intact(const char* when) { for(size_t f = 0; f < frames.size(); f++) for(auto& b : frames[f]) if(!intact(b)) { mon::violation("region.stable", "a %llu byte block of region %zu of %zu changed %s", (unsigned long long)b.n, f + 1, frames.size(), when); return !(bad = true); } return true; }
    template<u64 R> void containers() {
        Vec<u64, Mregion<R>> v; Vec<Math::Vect<f32, 4>, Mregion<R>> w; Vec<String<Mregion<R>>, Mregion<R>> s; Map<int, String<Mregion<R>>, Mregion<R>> m; Queue<u64, Mregion<R>> q; uint64_t n = 1 + r(60), sum = 0;
        for(uint64_t i = 0; i < n; i++) { v.push(u64{i * 7}); w.push(Math::Vect<f32, 4>{(f32)i}); s.push(format<Mregion<R>>("item %"_v, i)); m.insert((int)i, format<Mregion<R>>("%"_v, i * i)); q.push(u64{i}); sum += i * 7; mon::eval(); }
        uint64_t got = 0; for(auto x : v) got += x; bool ok = got == sum; for(uint64_t i = 0; i < n; i++) ok = ok && w[i].x == (f32)i && s[i] == format<Mregion<R>>("item %"_v, i) && m.get((int)i) == format<Mregion<R>>("%"_v, i * i) && q[i] == i;
        MON_CHECK(ok, "region.container", "container in a region holds wrong data"); if(!ok) bad = true;
    }
    template<u64 R> void region(int depth) {
        u64 d0 = Region_Allocator::depth(), s0 = Region_Allocator::size();
        {
            Region_Allocator::Scope<R> scope; frames.emplace_back(); opened++; deepest = std::max(deepest, depth); h = mon::mix(h, R * 131 + (u64)depth); if(opened < 20) tr += mon::fmt("%d ", depth);
            if(Region_Allocator::depth() != d0 + 1 || Region_Allocator::size() != s0) { mon::violation("region.depth", "begin: depth %llu size %llu expected %llu %llu", (unsigned long long)Region_Allocator::depth(), (unsigned long long)Region_Allocator::size(), (unsigned long long)d0 + 1, (unsigned long long)s0); bad = true; }
            u64 req0 = requested; int ops = (int)r(12); bool nested = false;
            for(int o = 0; o < ops && !bad; o++) {
                switch(r(8)) { case 0: case 1: case 2: case 3: block<R>(); break; case 4: case 5: if(depth < max_depth && opened < 250) { u64 before = Region_Allocator::size(); any(depth + 1); nested = true; MON_CHECK(Region_Allocator::size() == before, "region.size", "nested region changed size() from %llu to %llu", (unsigned long long)before, (unsigned long long)Region_Allocator::size()); } break;
                    case 6: if(r(3) == 0) containers<R>(); break; case 7: if(!frames.back().empty()) { Mregion<R>::free(frames.back()[0].p); if(!all_intact("after a free")) return; } break; }
            }
            (void)nested; u64 own = 0; for(auto& b : frames.back()) own += b.n; (void)req0;
            if(Region_Allocator::size() < s0 + own) mon::violation("region.size", "size() %llu is less than the %llu bytes allocated", (unsigned long long)Region_Allocator::size(), (unsigned long long)(s0 + own));
            if(!bad) all_intact("before its region ended");
            for(auto& b : frames.back()) live.erase((uintptr_t)b.p); frames.pop_back();
        }
        if(Region_Allocator::depth() != d0 || Region_Allocator::size() != s0) { mon::violation("region.restore", "end: depth %llu size %llu expected %llu %llu", (unsigned long long)Region_Allocator::depth(), (unsigned long long)Region_Allocator::size(), (unsigned long long)d0, (unsigned long long)s0); bad = true; }
        if(!bad) all_intact("when an inner region ended");
    }
    void any(int depth) { switch(r(5)) { case 0: region<11>(depth); break; case 1: region<22>(depth); break; case 2: region<33>(depth); break; case 3: region<44>(depth); break; default: region<55>(depth); } }
};
static u64 deep(int left) { Region(R) { unsigned char* p = (unsigned char*)Mregion<R>::alloc(40); memset(p, left, 40); u64 d = left > 1 ? deep(left - 1) : Region_Allocator::depth(); for(int i = 0; i < 40; i++) if(p[i] != (unsigned char)left) mon::violation("region.stable", "deep recursion clobbered level %d", left); return d; } return 0; }
// Megabytes and gigabytes in one region, across many chunks, with regions opened and closed on the way.
static void edge(Blk& b, bool check) {
    u64 k = std::min<u64>(b.n, 4096);
    for(u64 i = 0; i < k; i++) {
        unsigned char x = (unsigned char)(b.tag + i * 5), y = (unsigned char)(b.tag + i * 3 + 1);
        if(!check) { b.p[i] = x; if(b.n >= 2 * k) b.p[b.n - 1 - i] = y; }
        else if(b.p[i] != x || (b.n >= 2 * k && b.p[b.n - 1 - i] != y)) return mon::violation("region.stable", "byte %llu or its mirror of a block of %llu bytes changed", (unsigned long long)i, (unsigned long long)b.n);
    }
}
template<u64 R, u64 Next> static void big(mon::Rng& r, u64 total, int depth) {
    u64 d0 = Region_Allocator::depth(), s0 = Region_Allocator::size(), sum = 0;
    {
        Region_Allocator::Scope<R> scope;
        std::vector<Blk> bs;
        int step = 0;
        while(sum < total && step < 4000) {
            u64 n = step++ % 8 == 0 ? r(total / 4 + 1) : r.chance(80) ? 1 + r(600) : r(70000);
            Blk b{(unsigned char*)Mregion<R>::alloc(n), n, (unsigned char)r(256)};
            if((uintptr_t)b.p % 16) mon::violation("region.align", "%llu bytes at %p", (unsigned long long)n, (void*)b.p);
            if(n) { edge(b, false); bs.push_back(b); }
            sum += n;
            mon::eval();
            if(Region_Allocator::size() < s0 + sum) return mon::violation("region.size", "size() %llu is less than the %llu bytes allocated", (unsigned long long)Region_Allocator::size(), (unsigned long long)(s0 + sum));
            if(depth && step % 6 == 0) {
                u64 before = Region_Allocator::size();
                big<Next, R + 2>(r, r.chance(70) ? 3000 + r(9000) : total / 3, depth - 1);
                MON_CHECK(Region_Allocator::size() == before, "region.size", "a nested region changed size() from %llu to %llu", (unsigned long long)before, (unsigned long long)Region_Allocator::size());
            }
        }
        std::sort(bs.begin(), bs.end(), [](const Blk& a, const Blk& b) { return a.p < b.p; });
        for(size_t i = 1; i < bs.size(); i++) if(bs[i - 1].p + bs[i - 1].n > bs[i].p) return mon::violation("region.overlap", "blocks of %llu and %llu bytes overlap", (unsigned long long)bs[i - 1].n, (unsigned long long)bs[i].n);
        for(auto& b : bs) edge(b, true);
        mon::count("large_region_bytes", sum);
        mon::distinct(mon::mix(sum, bs.size()));
    }
    MON_CHECK(Region_Allocator::depth() == d0 && Region_Allocator::size() == s0, "region.restore", "end of a large region: depth %llu size %llu expected %llu %llu", (unsigned long long)Region_Allocator::depth(), (unsigned long long)Region_Allocator::size(), (unsigned long long)d0, (unsigned long long)s0);
}
template<> void big<107, 109>(mon::Rng&, u64, int) {}
template<typename F> static void must_die(const char* what, F&& f) {
    mon::ctx("%s", what); mon::Child c = mon::in_child([&]() -> int { if(__lsan_disable) __lsan_disable(); f(); return 0; }); mon::eval(); mon::distinct(mon::hstr(what));
    if(mon::sanitizer_text(c.output)) mon::violation("region.brand", "%s: memory error before stopping: %s", what, c.output.substr(0, 800).c_str());
    else if(c.exited && c.code == 0) mon::violation("region.brand", "%s did not stop the program", what);
    else if(c.output.find("fatal") == std::string::npos) mon::violation("region.brand", "%s: no fatal message (exit %d code %d sig %d)", what, c.exited, c.code, c.sig);
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C10", "random nested region programs (depth to 40, sizes 0..200000) per thread, brand violations in children, maximum depth; distinct by (brand, depth, size) sequence");
    mon::Rng r(mon::S().seed);
    if(mon::want("brands")) {
        must_die("allocating from an outer region", [] { Region(A) { 
            Region(B) { (void)Mregion<A>::alloc(8); (void)B; } } });
        must_die("freeing to an outer region", [] { Region(A) { void* p = Mregion<A>::alloc(8); 
            Region(B) { Mregion<A>::free(p); (void)B; } } });
        must_die("growing a container of an outer region", [] { Region(A) { Vec<u64, Mregion<A>> v; v.push(u64{1}); 
            Region(B) { (void)B; for(u64 i = 0; i < 100; i++) v.push(u64{i}); } } });
        must_die("allocating after the region ended", [] { constexpr u64 K = 77; { Region_Allocator::Scope<K> s; (void)Mregion<K>::alloc(8); } (void)Mregion<K>::alloc(8); });
        must_die("allocating with no region", [] { (void)Mregion<91>::alloc(8); });
        must_die("string of an outer region formatted inside", [] { Region(A) { 
            Region(B) { (void)B; auto s = format<Mregion<A>>("%"_v, 5); (void)s; } } });
        must_die("exceeding the maximum depth", [] { (void)deep(4000); });
        mon::ctx("deep"); i64 n0 = sys_net_allocs(); for(int d : {1, 2, 50, 100, 127}) { u64 got = deep(d); mon::eval(); MON_CHECK(got == (u64)d && Region_Allocator::depth() == 0 && Region_Allocator::size() == 0, "region.depth", "recursion to %d gave depth %llu", d, (unsigned long long)got); } MON_CHECK(sys_net_allocs() == n0, "region.backing", "deep recursion kept backing memory");
    }
    uint64_t n = mon::n(160, 6000);
    if(mon::want("nested")) for(uint64_t i = 0; i < n; i++) {
        mon::ctx("nested program %llu", (unsigned long long)i); i64 before = sys_net_allocs(); Prog p(r.next(), 2 + (int)r(40)); p.any(1); 
        MON_CHECK(Region_Allocator::depth() == 0 && Region_Allocator::size() == 0, "region.restore", "outermost end left depth %llu size %llu", (unsigned long long)Region_Allocator::depth(), (unsigned long long)Region_Allocator::size());
        MON_CHECK(sys_net_allocs() == before, "region.backing", "%lld backing blocks kept after all regions ended", (long long)(sys_net_allocs() - before));
        mon::distinct(p.h); mon::count("regions_opened", (uint64_t)p.opened); mon::count_max("deepest", (uint64_t)p.deepest); mon::sample(p.tr); if(p.bad) break;
    }
    if(mon::want("threads")) for(uint64_t i = 0; i < n / 16 + 1; i++) {
        mon::ctx("threads round %llu", (unsigned long long)i); i64 before = sys_net_allocs(); std::vector<std::thread> th; uint64_t seed = r.next();
        for(int t = 0; t < 6; t++) th.emplace_back([&, t] { for(int k = 0; k < 6; k++) { Prog p(seed + (uint64_t)(t * 10 + k), 2 + (k * 3)); p.any(1); mon::distinct(p.h); MON_CHECK(Region_Allocator::depth() == 0 && Region_Allocator::size() == 0, "region.restore", "thread left depth/size"); if(p.bad) return; } });
        for(auto& t : th) t.join(); MON_CHECK(sys_net_allocs() == before, "region.backing", "threads kept %lld backing blocks", (long long)(sys_net_allocs() - before));
    }
    if(mon::want("large")) for(uint64_t i = 0; i < mon::n(12, 200); i++) {
        u64 total = i == 0 ? 5ull << 30 : i % 3 == 0 ? 64ull << 20 : i % 3 == 1 ? 3ull << 20 : 200000;
        mon::ctx("large region of %llu bytes", (unsigned long long)total); i64 before = sys_net_allocs();
        big<101, 103>(r, total, 2);
        MON_CHECK(sys_net_allocs() == before, "region.backing", "%lld backing blocks kept after a large region ended", (long long)(sys_net_allocs() - before));
        MON_CHECK(Region_Allocator::depth() == 0 && Region_Allocator::size() == 0, "region.restore", "a large region left depth %llu size %llu", (unsigned long long)Region_Allocator::depth(), (unsigned long long)Region_Allocator::size());
    }
    return mon::finish();
}
