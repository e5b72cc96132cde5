// C06: Box, Opt, Storage, Pair, Tuple: values, presence, exactly-once destruction and release.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/box.h>
#include <rpp/tuple.h>
using namespace rpp;

// Allocator that records every block: exactly-once release, right sizes.
struct CA {
    constexpr static Literal name = "CA";
    static inline std::map<void*, u64> live;
    static void* alloc(u64 n) { void* p = ::malloc(n ? n : 1); live[p] = n; return p; }
    static void free(void* p) { if(!p) return; auto it = live.find(p); if(it == live.end()) { mon::violation("owner.free", "block %p released twice or never allocated", p); return; } live.erase(it); ::free(p); }
};
struct Base { Trk t; int tag; explicit Base(int64_t v) : t(v), tag(1) {} Base(Base&&) = default; virtual ~Base() = default; virtual int64_t val() const { return t.get(); } };
struct Derived : Base { Trk extra; std::string s; explicit Derived(int64_t v) : Base(v), extra(v + 1000), s(50, 'd') { tag = 2; } Derived(Derived&&) = default; int64_t val() const override { return extra.get() - 1000; } };

template<typename T, typename P> static void box_history(mon::Rng& r, int nops, const char* pn) {
    {
        Box<T, P> b[4]; std::map<int, int64_t> m; uint64_t h = sizeof(T) * 7 + mon::hstr(pn); std::string tr;
        for(int o = 0; o < nops; o++) {
            int i = (int)r(4), j = (int)r(4), op = (int)r(10); int64_t v = (int64_t)r(90) + 1; mon::ctx("Box<%s,%s> step %d op %d %d %d", El<T>::name, pn, o, op, i, j);
            if(o < 14) tr += mon::fmt("%d:%d%d ", op, i, j);
            h = mon::mix(h, (uint64_t)(op * 16 + i * 4 + j));
            switch(op) {
            case 0: b[i] = Box<T, P>(El<T>::make(v)); m[i] = v; break;
            case 1: b[i].emplace(El<T>::make(v)); m[i] = v; break;
            case 2: b[i] = Box<T, P>::make(El<T>::make(v)); m[i] = v; break;
            case 3: if(i != j) { b[i] = move(b[j]); if(m.count(j)) m[i] = m[j]; else m.erase(i); m.erase(j); } break;
            case 4: { Box<T, P> t(move(b[j])); MON_CHECK(!b[j].ok(), "box.moved-from", "moved-from Box still ok"); if(r(2)) b[j] = move(t); else m.erase(j); break; }
            case 5: if(i != j) { b[i] = b[j].clone(); if(m.count(j)) { m[i] = m[j]; MON_CHECK(&*b[i] != &*b[j], "box.clone", "clone shares the object"); } else m.erase(i); } break;
            case 6: if(m.count(i)) { El<T>::set(*b[i], v); m[i] = v; } break;
            case 7: b[i] = Box<T, P>{}; m.erase(i); break;
            case 8: { swap(b[i], b[j]); if(i != j) { auto a = m.find(i), c = m.find(j); bool ha = a != m.end(), hc = c != m.end(); int64_t va = ha ? a->second : 0, vc = hc ? c->second : 0; m.erase(i); m.erase(j); if(ha) m[j] = va; if(hc) m[i] = vc; } break; }
            case 9: { T* p = m.count(i) ? &*b[i] : nullptr; Box<T, P> t = move(b[i]); MON_CHECK(!p || &*t == p, "box.stable", "moving a Box moved the object"); b[i] = move(t); MON_CHECK(!p || &*b[i] == p, "box.stable", "moving a Box moved the object"); break; }
            }
            for(int k = 0; k < 4; k++) {
                mon::eval(); const Box<T, P>& c = b[k];
                if(c.ok() != (m.count(k) > 0)) { mon::violation("box.ok", "slot %d ok=%d expected %d after op %d", k, c.ok(), (int)m.count(k), op); return; }
                if(c.ok() && (El<T>::get(*c) != m[k] || El<T>::get(*c.operator->()) != m[k] || &*b[k] != b[k].operator->())) { mon::violation("box.value", "slot %d holds %lld expected %lld after op %d", k, (long long)El<T>::get(*c), (long long)m[k], op); return; }
            }
            if(El<T>::tracked && mon::reg().live_now() != (int64_t)m.size()) { mon::violation("box.live", "%lld live objects, expected %zu after op %d", (long long)mon::reg().live_now(), m.size(), op); return; }
            if constexpr(__is_same(P, CA)) if(CA::live.size() != m.size()) { mon::violation("box.blocks", "%zu live blocks, expected %zu after op %d", CA::live.size(), m.size(), op); return; }
        }
        mon::distinct(h); mon::sample(mon::fmt("Box<%s,%s> %s", El<T>::name, pn, tr.c_str()));
    }
    mon::reg().case_end("Box history");
    if constexpr(__is_same(P, CA)) MON_CHECK(CA::live.empty(), "box.blocks", "%zu blocks never released", CA::live.size());
}
template<typename T> static void opt_history(mon::Rng& r, int nops) {
    {
        Opt<T> b[4]; std::map<int, int64_t> m; uint64_t h = sizeof(T); bool hollow[4] = {};
        for(int o = 0; o < nops; o++) {
            int i = (int)r(4), j = (int)r(4), op = (int)r(11); int64_t v = (int64_t)r(90) + 1; mon::ctx("Opt<%s> step %d op %d %d %d", El<T>::name, o, op, i, j);
            h = mon::mix(h, (uint64_t)(op * 16 + i * 4 + j));
            switch(op) {
            case 0: b[i] = Opt<T>(El<T>::make(v)); m[i] = v; hollow[i] = false; break;
            case 1: b[i].emplace(El<T>::make(v)); m[i] = v; hollow[i] = false; break;
            case 2: b[i] = El<T>::make(v); m[i] = v; hollow[i] = false; break;
            case 3: b[i].clear(); m.erase(i); hollow[i] = false; break;
            case 4: b[i] = Opt<T>{}; m.erase(i); hollow[i] = false; break;
            case 5: if(i != j && !hollow[j]) { b[i] = move(b[j]); if(m.count(j)) { m[i] = m[j]; if(El<T>::tracked) { m.erase(j); hollow[j] = true; } } else m.erase(i); hollow[i] = false; } break;
            case 6: if(!hollow[j]) { Opt<T> t(move(b[j])); MON_CHECK(t.ok() == (m.count(j) > 0), "opt.move", "move construction changed presence"); if(t.ok() && El<T>::get(*t) != m[j]) mon::violation("opt.move", "move construction changed the value"); b[j] = move(t); } break;
            case 7: if(i != j && !hollow[j]) { b[i] = b[j].clone(); hollow[i] = false; if(m.count(j)) m[i] = m[j]; else m.erase(i); } break;
            case 8: if(m.count(i)) { El<T>::set(*b[i], v); m[i] = v; } break;
            case 9: if(!hollow[i]) { T other = El<T>::make(91); T& got = b[i].value_or(other); if(m.count(i) ? &got != &*b[i] : &got != &other) mon::violation("opt.value_or", "wrong reference"); } break;
            case 10: if constexpr(!El<T>::tracked) { Opt<T> c{b[j]}; b[i] = c; if(m.count(j)) m[i] = m[j]; else m.erase(i); } else if constexpr(El<T>::copyable) { T x = El<T>::make(v); b[i] = Opt<T>(x); m[i] = v; hollow[i] = false; } break;
            }
            for(int k = 0; k < 4; k++) {
                mon::eval(); if(hollow[k]) continue; const Opt<T>& c = b[k];
                if(c.ok() != (m.count(k) > 0)) { mon::violation("opt.ok", "slot %d ok=%d expected %d after op %d", k, c.ok(), (int)m.count(k), op); return; }
                if(c.ok() && (El<T>::get(*c) != m[k] || El<T>::get(*c.operator->()) != m[k] || El<T>::get(*b[k].operator->()) != m[k])) { mon::violation("opt.value", "slot %d wrong after op %d", k, op); return; }
            }
            if(El<T>::tracked && mon::reg().live_now() != (int64_t)m.size()) { mon::violation("opt.live", "%lld live objects, expected %zu after op %d", (long long)mon::reg().live_now(), m.size(), op); return; }
        }
        mon::distinct(h);
    }
    mon::reg().case_end("Opt history");
}
struct Node { int64_t v; Trk t; Box<Node, CA> next; Node(int64_t x, Box<Node, CA>&& n) : v(x), t(x), next(move(n)) {} };
struct NodeP { int64_t v; Trk t; Box<NodeP, Mpool> next; NodeP(int64_t x, Box<NodeP, Mpool>&& n) : v(x), t(x), next(move(n)) {} };
struct Tree { Trk t; Box<Tree, CA> l, r; explicit Tree(int64_t v) : t(v) {} };
template<typename N, typename P> static void lists(mon::Rng& r) {
    {
        Box<N, P> head; std::deque<int64_t> m;
        for(int o = 0; o < 200; o++) {
            mon::ctx("linked list step %d", o);
            int op = (int)r(5);
            if(op < 3 || m.empty()) { int64_t v = (int64_t)r(1000); head = Box<N, P>(v, move(head)); m.push_front(v); }
            else if(op == 3) { head = move(head->next); m.pop_front(); }                // replaced by something it owns
            else { size_t k = r(m.size()); Box<N, P>* p = &head; for(size_t i = 0; i < k; i++) p = &(*p)->next; *p = move((*p)->next); m.erase(m.begin() + (long)k); }
            size_t i = 0; for(Box<N, P>* p = &head; p->ok(); p = &(*p)->next, i++) { if(i >= m.size() || (*p)->v != m[i] || (*p)->t.get() != m[i]) { mon::violation("box.owned-replace", "list differs at %zu after op %d", i, op); return; } }
            mon::eval(); if(i != m.size() || mon::reg().live_now() != (int64_t)m.size()) { mon::violation("box.owned-replace", "list length %zu live %lld expected %zu", i, (long long)mon::reg().live_now(), m.size()); return; }
        }
        mon::distinct(mon::mix(r.next(), 5));
    }
    mon::reg().case_end("Box list"); MON_CHECK(CA::live.empty(), "box.blocks", "list leaked blocks");
}
static void trees(mon::Rng& r) {
    {
        std::function<Box<Tree, CA>(int)> build = [&](int d) { Box<Tree, CA> t((int64_t)r(100)); if(d > 0 && r(4)) t->l = build(d - 1); if(d > 0 && r(4)) t->r = build(d - 1); return t; };
        std::function<int64_t(const Box<Tree, CA>&)> cnt = [&](const Box<Tree, CA>& t) -> int64_t { if(!t.ok()) return 0; t->t.get(); return 1 + cnt(t->l) + cnt(t->r); };
        Box<Tree, CA> root = build(6);
        while(root.ok()) { int64_t keep = r(2) ? cnt(root->l) : -1; mon::eval(); if(keep >= 0) root = move(root->l); else { keep = cnt(root->r); root = move(root->r); } if(mon::reg().live_now() != keep || (int64_t)CA::live.size() != keep || cnt(root) != keep) { mon::violation("box.owned-replace", "promoting a subtree left %lld objects, expected %lld", (long long)mon::reg().live_now(), (long long)keep); return; } }
    }
    mon::reg().case_end("Box tree"); MON_CHECK(CA::live.empty(), "box.blocks", "tree leaked blocks");
}
struct OptNode { Trk t; Opt<Box<OptNode, CA>> next; explicit OptNode(int64_t v) : t(v) {} };
static void opt_lists(mon::Rng& r) { // an Opt replaced by an Opt, or by a value, that its own value owns
    {
        using O = Opt<Box<OptNode, CA>>; O head; std::deque<int64_t> m;
        for(int o = 0; o < 120; o++) {
            int op = (int)r(7); mon::ctx("Opt list step %d op %d", o, op);
            if(op < 3 || m.empty()) { int64_t v = (int64_t)r(1000); Box<OptNode, CA> b(v); b->next = move(head); head = move(b); m.push_front(v); }
            else if(op == 3) { O old{move(head)}; head = move((*old)->next); m.pop_front(); } // another Opt's
            else { size_t k = r(m.size()); O* p = &head; for(size_t i = 0; i < k; i++) p = &(**p)->next; O& nx = (**p)->next;
                if(op == 4 || !nx.ok()) *p = move(nx); else if(op == 5) *p = move(*nx); else { O& same = *p; *p = move(same); continue; }
                m.erase(m.begin() + (long)k); }
            size_t i = 0; for(O* p = &head; p->ok() && (*p)->ok(); p = &(**p)->next, i++) if(i >= m.size() || (**p)->t.get() != m[i]) { mon::violation("opt.owned-replace", "list differs at %zu after op %d", i, op); return; }
            mon::eval(); if(i != m.size() || mon::reg().live_now() != (int64_t)m.size() || CA::live.size() != m.size()) { mon::violation("opt.owned-replace", "list length %zu live %lld expected %zu after op %d", i, (long long)mon::reg().live_now(), m.size(), op); return; }
        }
        mon::distinct(mon::mix(r.next(), 6));
    }
    mon::reg().case_end("Opt list"); MON_CHECK(CA::live.empty(), "opt.blocks", "list leaked blocks");
}
static void derived(mon::Rng& r) {
    { for(int i = 0; i < 20; i++) { int64_t v = (int64_t)r(100); Box<Derived, CA> d(v); Box<Base, CA> b(move(d)); mon::eval(); MON_CHECK(!d.ok() && b.ok() && b->val() == v && b->tag == 2, "box.upcast", "upcast Box wrong"); if(r(2)) b = Box<Base, CA>(v + 1); if(r(2)) { Box<Base, CA> e = move(b); MON_CHECK(e.ok() && !b.ok(), "box.upcast", "move"); } } }
    mon::reg().case_end("derived Box"); MON_CHECK(CA::live.empty(), "box.blocks", "derived leaked blocks");
}
static void storage(mon::Rng& r) {
    { Storage<Trk> s[3]; bool on[3] = {}; int64_t v[3] = {};
      for(int o = 0; o < 60; o++) { int i = (int)r(3); if(!on[i]) { v[i] = (int64_t)r(100); if(r(2)) s[i].construct(v[i]); else s[i].construct(Trk(v[i])); on[i] = true; } else if(r(2)) { s[i].destruct(); on[i] = false; } mon::eval();
        int64_t live = 0; for(int k = 0; k < 3; k++) if(on[k]) { live++; const Storage<Trk>& c = s[k]; if((*c).get() != v[k] || c->get() != v[k] || (void*)&*s[k] != (void*)s[k].data()) mon::violation("storage.value", "wrong value"); } if(mon::reg().live_now() != live) { mon::violation("storage.live", "live count"); break; } }
      for(int i = 0; i < 3; i++) if(on[i]) s[i].destruct(); Storage<int> a{5}, b{a}; b = a; MON_CHECK(*b == 5 && (uintptr_t)b.data() % alignof(int) == 0, "storage.value", "trivial"); Storage<long double> ld{1.5L}; MON_CHECK((uintptr_t)&*ld % alignof(long double) == 0, "storage.align", "misaligned"); }
    mon::reg().case_end("Storage");
}
template<typename A, typename B> static void pairs(mon::Rng& r) {
    {
        int64_t a = (int64_t)r(90) + 1, b = (int64_t)r(90) + 1; using P = Pair<A, B>; mon::ctx("Pair<%s,%s>", El<A>::name, El<B>::name);
        auto is = [](const P& p, int64_t x, int64_t y) { return El<A>::get(p.first) == x && El<B>::get(p.second) == y && El<A>::get(p.template get<0>()) == x && El<B>::get(p.template get<1>()) == y; };
        P p{El<A>::make(a), El<B>::make(b)}; MON_CHECK(is(p, a, b), "pair.value", "construction");
        P q = p.clone(); El<A>::set(q.first, 95); El<B>::set(q.template get<1>(), 96); MON_CHECK(is(p, a, b) && is(q, 95, 96), "pair.clone", "clone not independent");
        P z{move(q)}; MON_CHECK(is(z, 95, 96), "pair.move", "move construction"); p = move(z); MON_CHECK(is(p, 95, 96), "pair.move", "move assignment");
        if constexpr(El<A>::copyable) { A x = El<A>::make(7); P w{x, El<B>::make(8)}; MON_CHECK(is(w, 7, 8) && El<A>::get(x) == 7, "pair.value", "copy,move"); }
        if constexpr(El<B>::copyable) { B y = El<B>::make(9); P w{El<A>::make(6), y}; MON_CHECK(is(w, 6, 9) && El<B>::get(y) == 9, "pair.value", "move,copy"); }
        if constexpr(El<A>::copyable && El<B>::copyable) { A x = El<A>::make(7); B y = El<B>::make(9); P w{x, y}; P c{w}; El<A>::set(w.first, 1); MON_CHECK(is(w, 1, 9) && is(c, 7, 9), "pair.value", "copy"); c = w; MON_CHECK(is(c, 1, 9), "pair.value", "copy assignment"); auto [m, n] = c; MON_CHECK(El<A>::get(m) == 1 && El<B>::get(n) == 9, "pair.bind", "structured binding"); }
        auto& [m, n] = p; El<A>::set(m, 11); El<B>::set(n, 12); MON_CHECK(is(p, 11, 12), "pair.bind", "structured binding by reference");
        mon::eval(8); mon::distinct(mon::mix((uint64_t)(a * 100 + b), mon::hstr(std::string(El<A>::name) + El<B>::name)));
    }
    mon::reg().case_end("Pair");
}
template<typename A, typename B, typename C> static void tuples(mon::Rng& r) {
    {
        int64_t a = (int64_t)r(90) + 1, b = (int64_t)r(90) + 1, c = (int64_t)r(90) + 1; using T = Tuple<A, B, C>; mon::ctx("Tuple<%s,%s,%s>", El<A>::name, El<B>::name, El<C>::name);
        auto is = [](const T& t, int64_t x, int64_t y, int64_t z) { return El<A>::get(t.template get<0>()) == x && El<B>::get(t.template get<1>()) == y && El<C>::get(t.template get<2>()) == z && t.length() == 3; };
        T t{El<A>::make(a), El<B>::make(b), El<C>::make(c)}; MON_CHECK(is(t, a, b, c), "tuple.value", "construction");
        T u = t.clone(); El<A>::set(u.template get<0>(), 91); El<B>::set(u.template get<1>(), 92); El<C>::set(u.template get<2>(), 93); MON_CHECK(is(t, a, b, c) && is(u, 91, 92, 93), "tuple.clone", "clone not independent");
        T v{move(u)}; MON_CHECK(is(v, 91, 92, 93), "tuple.move", "move construction"); t = move(v); MON_CHECK(is(t, 91, 92, 93), "tuple.move", "move assignment");
        int64_t sum = t.invoke([](const A& x, const B& y, const C& z) -> int64_t { return El<A>::get(x) * 10000 + El<B>::get(y) * 100 + El<C>::get(z); }); MON_CHECK(sum == 919293, "tuple.invoke", "invoke passed %lld", (long long)sum);
        if constexpr(El<A>::copyable) { A x = El<A>::make(5); T w{x, El<B>::make(6), El<C>::make(7)}; MON_CHECK(is(w, 5, 6, 7) && El<A>::get(x) == 5, "tuple.value", "copy first"); }
        T w{El<A>::make(1), Tuple<B, C>{El<B>::make(2), El<C>::make(3)}}; MON_CHECK(is(w, 1, 2, 3), "tuple.value", "head and rest");
        { using T6 = Tuple<C, A, u16, B, A, i64>; T6 p{El<C>::make(1), El<A>::make(a), u16(3), El<B>::make(b), El<A>::make(c), i64(6)}; T6 q = p.clone(); T6 s{move(p)}; s = move(q); const T6& k = s;
          MON_CHECK(s.length() == 6 && El<C>::get(k.template get<0>()) == 1 && El<A>::get(k.template get<1>()) == a && k.template get<2>() == 3 && El<B>::get(k.template get<3>()) == b && El<A>::get(k.template get<4>()) == c && k.template get<5>() == 6, "tuple.value", "const element of a six-tuple");
          MON_CHECK(&s.template get<0>() == &k.template get<0>() && &s.template get<1>() == &k.template get<1>() && &s.template get<3>() == &k.template get<3>() && &s.template get<4>() == &k.template get<4>() && &s.template get<5>() == &k.template get<5>(), "tuple.value", "get and const get name different elements");
          int64_t d = s.invoke([](const C& u, const A& v, u16 w, const B& x, const A& y, i64 z) -> int64_t { return ((((El<C>::get(u) * 100 + El<A>::get(v)) * 100 + w) * 100 + El<B>::get(x)) * 100 + El<A>::get(y)) * 100 + z; }); MON_CHECK(d == ((((100 + a) * 100 + 3) * 100 + b) * 100 + c) * 100 + 6, "tuple.invoke", "six-tuple passed %lld", (long long)d); }
        mon::eval(7); mon::distinct(mon::mix((uint64_t)(a * 10000 + b * 100 + c), mon::hstr(std::string(El<A>::name) + El<B>::name + El<C>::name)));
    }
    mon::reg().case_end("Tuple");
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C06", "random histories over 4 Boxes / Opts per element type and allocator, owned-replacement lists and trees, Pair/Tuple/Storage cases; distinct by operation sequence or value tuple");
    mon::Rng r(mon::S().seed); uint64_t n = mon::n(150, 8000);
    if(mon::want("box")) for(uint64_t i = 0; i < n; i++) { int k = 20 + (int)r(100); box_history<int, CA>(r, k, "counting"); box_history<Pod, CA>(r, k, "counting"); box_history<Trk, CA>(r, k, "counting"); box_history<Cpy, CA>(r, k, "counting"); box_history<Trk, Mdefault>(r, k, "default"); box_history<Trk, Mpool>(r, k, "pool"); box_history<Pod, Mpool>(r, k, "pool"); box_history<Cpy, Mpool>(r, k, "pool"); box_history<int, Mpool>(r, k, "pool"); }
    if(mon::want("opt")) for(uint64_t i = 0; i < n; i++) { int k = 20 + (int)r(100); opt_history<int>(r, k); opt_history<Pod>(r, k); opt_history<Trk>(r, k); opt_history<Cpy>(r, k); }
    if(mon::want("lists")) for(uint64_t i = 0; i < n / 2; i++) { lists<Node, CA>(r); lists<NodeP, Mpool>(r); trees(r); opt_lists(r); derived(r); storage(r); }
    if(mon::want("pairs")) for(uint64_t i = 0; i < n; i++) { pairs<int, int>(r); pairs<Trk, int>(r); pairs<int, Trk>(r); pairs<Trk, Trk>(r); pairs<Cpy, Trk>(r); pairs<Trk, Cpy>(r); pairs<Cpy, Pod>(r); tuples<int, Trk, Cpy>(r); tuples<Trk, Trk, Trk>(r); tuples<Cpy, int, Pod>(r); tuples<Pod, Cpy, int>(r); }
    { Tuple<> e; Tuple<> f = e.clone(); MON_CHECK(f.length() == 0 && e.invoke([]() { return 3; }) == 3, "tuple.value", "empty tuple"); }
    mon::count("objects_constructed", mon::reg().made); mon::count("objects_destroyed", mon::reg().destroyed);
    Profile::finalize(); // exits 1 when anything leaked
    return mon::finish();
}
