// C08: Rc / Arc lifetime, counts and (Arc) concurrent release.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/rc.h>
using namespace rpp;

struct CA { // block-recording allocator, thread safe
    constexpr static Literal name = "CA";
    static inline std::mutex mu; static inline std::set<void*> live;
    static void* alloc(u64 n) { void* p = ::malloc(n ? n : 1); std::lock_guard<std::mutex> g(mu); live.insert(p); return p; }
    static void free(void* p) { if(!p) return; { std::lock_guard<std::mutex> g(mu); if(!live.erase(p)) { mon::violation("rc.free", "block released twice"); return; } } ::free(p); }
    static size_t n() { std::lock_guard<std::mutex> g(mu); return live.size(); }
};
struct Obj { Trk t; int64_t id; unsigned char pad[24]; explicit Obj(int64_t i) : t(i), id(i) { for(int k = 0; k < 24; k++) pad[k] = (unsigned char)(i + k); } bool ok(int64_t i) const { for(int k = 0; k < 24; k++) if(pad[k] != (unsigned char)(i + k)) return false; return id == i && t.get() == i; } };

template<template<typename, typename> class H, typename P> static void history(mon::Rng& r, int nops, const char* nm) {
    {
        using R = H<Obj, P>; R x[6]; std::vector<int64_t> m(6, 0); int64_t next = 1; uint64_t h = mon::hstr(nm); std::string tr; // 0 = empty
        for(int o = 0; o < nops; o++) {
            int i = (int)r(6), j = (int)r(6), op = (int)r(11); mon::ctx("%s step %d op %d %d %d", nm, o, op, i, j); h = mon::mix(h, (uint64_t)(op * 64 + i * 8 + j)); if(o < 14) tr += mon::fmt("%d:%d%d ", op, i, j);
            switch(op) {
            case 0: x[i] = R(next); m[i] = next++; break;
            case 1: x[i] = R::make(next); m[i] = next++; break;
            case 2: case 3: case 4: x[i] = x[j].dup(); m[i] = m[j]; break;
            case 5: if(i != j) { x[i] = move(x[j]); m[i] = m[j]; m[j] = 0; } break;
            case 6: { R t(move(x[j])); MON_CHECK(!x[j].ok() && x[j].references() == 0, "rc.moved-from", "moved-from handle still ok"); x[j] = move(t); break; }
            case 7: x[i].clear(); m[i] = 0; break;
            case 8: x[i] = R{}; m[i] = 0; break;
            case 9: if(m[j]) { R t = R::from_this(&*x[j]); int64_t n = std::count(m.begin(), m.end(), m[j]); MON_CHECK((int64_t)t.references() == n + 1, "rc.count", "from_this: count %llu expected %lld", (unsigned long long)t.references(), (long long)n + 1); x[i] = move(t); m[i] = m[j]; } break;
            case 10: swap(x[i], x[j]); std::swap(m[i], m[j]); break;
            }
            std::set<int64_t> ids; 
            for(int k = 0; k < 6; k++) {
                mon::eval(); const R& c = x[k]; int64_t n = m[k] ? std::count(m.begin(), m.end(), m[k]) : 0; if(m[k]) ids.insert(m[k]);
                if(c.ok() != (m[k] != 0) || (int64_t)c.references() != n) { mon::violation("rc.count", "%s: slot %d ok=%d references=%llu expected %lld after op %d", nm, k, c.ok(), (unsigned long long)c.references(), (long long)n, op); return; }
                if(c.ok() && (!(*c).ok(m[k]) || !c->ok(m[k]) || &*x[k] != x[k].operator->())) { mon::violation("rc.value", "%s: slot %d object changed after op %d", nm, k, op); return; }
                for(int z = 0; z < k; z++) if(m[z] && m[z] == m[k] && &*x[z] != &*x[k]) { mon::violation("rc.shared", "%s: dup does not share", nm); return; }
            }
            if(mon::reg().live_now() != (int64_t)ids.size()) { mon::violation("rc.live", "%s: %lld objects alive expected %zu after op %d", nm, (long long)mon::reg().live_now(), ids.size(), op); return; }
            if constexpr(__is_same(P, CA)) if(CA::n() != ids.size()) { mon::violation("rc.blocks", "%s: %zu blocks expected %zu", nm, CA::n(), ids.size()); return; }
        }
        mon::distinct(h); mon::sample(mon::fmt("%s: %s", nm, tr.c_str()));
    }
    mon::reg().case_end(nm);
}
template<template<typename, typename> class H, typename P> struct Node { Trk t; H<Node, P> next; Node(int64_t v, H<Node, P>&& n) : t(v), next(move(n)) {} };
template<template<typename, typename> class H, typename P> static void lists(mon::Rng& r, const char* nm) {
    {
        using R = H<Node<H, P>, P>; R a, b; std::deque<int64_t> ma, mb; size_t shared = 0; // b's tail of length 'shared' is a's tail
        for(int o = 0; o < 120; o++) {
            mon::ctx("%s list step %d", nm, o); int op = (int)r(6); int64_t v = (int64_t)r(1000);
            if(op < 2) { a = R(v, move(a)); ma.push_front(v); }
            else if(op == 2) { b = a.dup(); mb = ma; shared = ma.size(); }
            else if(op == 3 && !ma.empty()) { if(ma.size() == shared) { R t = a->next.dup(); a = move(t); shared--; } else a = move(a->next); ma.pop_front(); }
            else if(op == 4 && !mb.empty()) { if(mb.size() == shared) { R t = b->next.dup(); b = move(t); shared--; } else b = move(b->next); mb.pop_front(); }
            else if(op == 5) { b = R(v, move(b)); mb.push_front(v); }
            shared = std::min(shared, std::min(ma.size(), mb.size()));
            auto walk = [&](R& h, std::deque<int64_t>& m) { size_t i = 0; for(R* p = &h; p->ok(); p = &(*p)->next, i++) if(i >= m.size() || (*p)->t.get() != m[i]) return false; return i == m.size(); };
            mon::eval(); if(!walk(a, ma) || !walk(b, mb)) { mon::violation("rc.owned-replace", "%s: shared list differs after op %d", nm, op); return; }
            if(mon::reg().live_now() != (int64_t)(ma.size() + mb.size() - shared)) { mon::violation("rc.live", "%s: list has %lld nodes alive expected %zu after op %d", nm, (long long)mon::reg().live_now(), ma.size() + mb.size() - shared, op); return; }
        }
    }
    mon::reg().case_end(nm);
    { using R = H<Node<H, P>, P>; R h; for(int i = 0; i < 50; i++) h = R(i, move(h)); for(int i = 49; i >= 0; i--) { mon::eval(); if(h->t.get() != i) { mon::violation("rc.owned-replace", "pop order"); break; } h = move(h->next); } MON_CHECK(!h.ok() && mon::reg().live_now() == 0, "rc.owned-replace", "%s: popping the list", nm); }
    mon::reg().case_end(nm);
}
// Many handles to one object, made and dropped in any order; the count follows exactly and only the last drop destroys.
template<template<typename, typename> class H, typename P> static void crowd(mon::Rng& r, const char* nm) {
    using R = H<Obj, P>;
    {
        int64_t id = 1 + (int64_t)r(1000);
        std::vector<R> v;
        v.push_back(r(2) ? R(id) : R::make(id));
        u64 n = 1, bias = 40 + r(40), top = 1, limit = r(2) ? 12 : 700;
        while(n) {
            mon::ctx("%s crowd of %llu", nm, (unsigned long long)n);
            u64 k = r(n);
            if(r(100) < bias && n < limit) {
                switch(r(3)) {
                case 0: v.push_back(v[k].dup()); break;
                case 1: v.push_back(R::from_this(&*v[k])); break;
                default: { R t = R::from_this(v[k].operator->()); R u(move(t)); v.push_back(move(u)); }
                }
                n++;
                top = std::max(top, n);
            } else {
                switch(r(3)) {
                case 0: v[k].clear(); break;
                case 1: v[k] = R{}; break;
                default: { R t(move(v[k])); }
                }
                std::swap(v[k], v.back());
                v.pop_back();
                n--;
            }
            if(r(400) == 0) bias = 10 + r(80);
            if(top >= limit) bias = 30;
            mon::eval();
            if(n && (v[r(n)].references() != n || !v[r(n)]->ok(id))) { mon::violation("rc.count", "%s: references() = %llu with %llu handles, object %d", nm, (unsigned long long)v[0].references(), (unsigned long long)n, v[0]->ok(id)); return; }
            if(mon::reg().live_now() != (n ? 1 : 0)) { mon::violation("rc.live", "%s: %lld objects alive with %llu handles", nm, (long long)mon::reg().live_now(), (unsigned long long)n); return; }
        }
        mon::distinct(mon::mix(mon::hstr(nm), mon::mix(top, (u64)id)));
    }
    mon::reg().case_end(nm);
}
// ------------------------------------------------ concurrent Arc
static std::atomic<int> g_dtors{0}; static std::atomic<int64_t> g_seen{0};
template<int T> struct Shared { int64_t slot[T] = {}; int64_t magic = 0x5a5a; int64_t* heap; Shared() : heap(new int64_t(77)) {} Shared(Shared&&) = delete;
    ~Shared() { int64_t s = 0; for(int64_t v : slot) s += v; g_seen += s; if(magic != 0x5a5a || *heap != 77) mon::violation("arc.corrupt", "object corrupted before destruction"); magic = 0; delete heap; g_dtors++; } };
template<typename P> static void concurrent(mon::Rng& r, int rounds, const char* nm) {
    constexpr int T = 8; using S = Shared<T>;
    for(int round = 0; round < rounds; round++) {
        mon::ctx("%s concurrent round %d", nm, round); g_dtors = 0; g_seen = 0; int nt = 2 + (int)r(T - 1), iters = 1 + (int)r(60); bool keep = r(2); uint64_t base = r.next(); int64_t expect = 0;
        std::atomic<int> gate{0}; std::atomic<uint64_t> order{0};
        {
            Arc<S, P> root = Arc<S, P>::make(); std::vector<std::thread> th; std::vector<Arc<S, P>> own((size_t)nt); for(auto& a : own) a = root.dup();
            S* obj = &*root; const Arc<S, P>& shared = root; if(!keep) {}
            std::vector<int64_t> vals((size_t)nt); for(auto& v : vals) { v = (int64_t)r(1000); expect += v; }
            for(int t = 0; t < nt; t++) th.emplace_back([&, t] {
                mon::Rng q(base + (uint64_t)t); gate++; while(gate < nt) sched_yield(); Arc<S, P> mine = move(own[(size_t)t]); std::vector<Arc<S, P>> extra;
                for(int i = 0; i < iters; i++) {
                    if(mine->magic != 0x5a5a || &*mine != obj) { mon::violation("arc.alive", "object not alive while a handle exists"); return; }
                    uint64_t n = mine.references(); if(n < 1 || n > (uint64_t)(nt * 70 + nt + 1)) mon::violation("arc.count", "references() = %llu while held", (unsigned long long)n);
                    if(q(3) == 0) { extra.push_back(mine.dup()); if(extra.size() > 40) extra.clear(); } else if(keep && q(3) == 0) { Arc<S, P> t2 = shared.dup(); t2.clear(); } else if(q(4) == 0) { Arc<S, P> t2 = Arc<S, P>::from_this(&*mine); mine = move(t2); } else if(!extra.empty()) { mine = move(extra.back()); extra.pop_back(); }
                    mon::eval();
                }
                mine->slot[t] = vals[(size_t)t];   // must be visible to whichever thread destroys
                extra.clear(); order = order * 16 + (uint64_t)t; mine.clear();
            });
            if(!keep) root.clear();
            for(auto& t : th) t.join();
            if(keep) { MON_CHECK(root.references() == 1 && g_dtors == 0, "arc.count", "references() = %llu after every other handle was dropped", (unsigned long long)root.references()); }
        }
        mon::eval(); mon::distinct(mon::mix(order, (uint64_t)(nt * 100 + iters)));
        if(g_dtors != 1) { mon::violation("arc.destroyed-once", "%s: object destroyed %d times", nm, g_dtors.load()); return; }
        if(g_seen != expect) mon::violation("arc.visibility", "%s: destructor saw %lld expected %lld", nm, (long long)g_seen.load(), (long long)expect);
    }
    mon::count("concurrent_rounds", (uint64_t)rounds);
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C08", "random handle histories over 6 slots (Rc and Arc, three allocators), shared lists, and concurrent dup/drop rounds of up to 8 threads; distinct by operation sequence or release order");
    mon::Rng r(mon::S().seed);
#ifndef MON_TSAN
    if(mon::want("history")) for(uint64_t i = 0, n = mon::n(120, 4000); i < n; i++) { int k = 20 + (int)r(150); history<Rc, CA>(r, k, "Rc/counting"); history<Arc, CA>(r, k, "Arc/counting"); history<Rc, Mpool>(r, k, "Rc/pool"); history<Arc, Mpool>(r, k, "Arc/pool"); history<Rc, Mdefault>(r, k, "Rc/default"); history<Arc, Mdefault>(r, k, "Arc/default"); }
    if(mon::want("crowd")) for(uint64_t i = 0, n = mon::n(12, 300); i < n; i++) { crowd<Rc, CA>(r, "Rc/counting"); crowd<Arc, CA>(r, "Arc/counting"); crowd<Rc, Mpool>(r, "Rc/pool"); crowd<Arc, Mdefault>(r, "Arc/default"); }
    if(mon::want("lists")) for(uint64_t i = 0, n = mon::n(60, 2000); i < n; i++) { lists<Rc, CA>(r, "Rc/counting"); lists<Arc, CA>(r, "Arc/counting"); lists<Rc, Mpool>(r, "Rc/pool"); lists<Arc, Mpool>(r, "Arc/pool"); }
#endif
    if(mon::want("concurrent")) { int n = (int)mon::n(250, 4000); concurrent<CA>(r, n, "Arc/counting"); concurrent<Mdefault>(r, n, "Arc/default"); concurrent<Mpool>(r, n, "Arc/pool"); }
    MON_CHECK(CA::n() == 0, "rc.blocks", "%zu blocks never released", CA::n());
    mon::count("objects_constructed", mon::reg().made); mon::count("objects_destroyed", mon::reg().destroyed);
    Profile::finalize();
    return mon::finish();
}
