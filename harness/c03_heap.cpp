// C03: Heap against a reference multiset.
#include "mon.h"
#include "owned.h"
#include <rpp/base.h>
#include <rpp/heap.h>
using namespace rpp;
typedef std::multiset<int64_t> MS;
// Orders by key modulo: a strict weak order with many ties, plus a payload to track identity.
struct Weak { int64_t v; bool operator<(const Weak& o) const { return (v >> 4) < (o.v >> 4); } };
template<> struct El<Weak> { static constexpr const char* name = "weak-order"; static constexpr bool tracked = false, copyable = true; static Weak make(int64_t x) { return Weak{x}; } static int64_t get(const Weak& w) { return w.v; } };
template<typename T> static int64_t rank_of(int64_t v) { if constexpr(__is_same(T, Weak)) return v >> 4; else return v; }

template<typename T, typename A> static bool check(const Heap<T, A>& h, const MS& m, const char* op) {
    mon::eval();
    if(h.length() != m.size() || h.empty() != m.empty()) { mon::violation("heap.length", "%s: length %llu expected %zu after %s", El<T>::name, (unsigned long long)h.length(), m.size(), op); return false; }
    if(!m.empty()) {
        int64_t best = INT64_MAX; for(auto x : m) best = std::min(best, rank_of<T>(x));
        if(rank_of<T>(El<T>::get(h.top())) != best) { mon::violation("heap.top", "%s: top is %lld, least is %lld after %s", El<T>::name, (long long)El<T>::get(h.top()), (long long)best, op); return false; }
        if(m.find(El<T>::get(h.top())) == m.end()) { mon::violation("heap.top", "top is not an element of the heap"); return false; }
    }
    std::vector<int64_t> got, exp(m.begin(), m.end());
    for(const T& x : h) got.push_back(El<T>::get(x));
    std::sort(got.begin(), got.end());
    if(got != exp) { mon::violation("heap.content", "%s: content differs from the multiset after %s (%zu vs %zu)", El<T>::name, op, got.size(), exp.size()); return false; }
    return true;
}
template<typename T, typename A> static void drain(Heap<T, A>& h, MS& m, const char* w) {
    int64_t last = INT64_MIN;
    while(!m.empty()) {
        if(h.empty()) { mon::violation("heap.drain", "ran out of elements in %s", w); return; }
        int64_t x = El<T>::get(h.top());
        if(rank_of<T>(x) < last) { mon::violation("heap.drain", "%s: %lld popped after rank %lld in %s", El<T>::name, (long long)x, (long long)last, w); return; }
        auto it = m.find(x);
        if(it == m.end()) { mon::violation("heap.drain", "%s: popped %lld which is not in the multiset", w, (long long)x); return; }
        last = rank_of<T>(x); m.erase(it); h.pop(); mon::eval();
    }
    MON_CHECK(h.empty(), "heap.drain", "elements left over");
}
template<typename T, typename A> static void history(mon::Rng& r, int nops) {
    {
        Heap<T, A> h[2]; MS m[2]; uint64_t hh = sizeof(T); std::string tr;
        int64_t range = 1 + (int64_t)r(r(2) ? 6 : 1000), dir = (int64_t)r(3), ctr = 500;
        for(int o = 0; o < nops; o++) {
            int a = (int)r(2), op = (int)r(20); Heap<T, A>& x = h[a]; MS& y = m[a];
            int64_t k = dir == 0 ? (int64_t)r((uint64_t)range) + 1 : dir == 1 ? ctr++ : ctr--;
            if(k <= 0) k = 1; if(k > 2000) k = 2000;
            if(y.size() > 70) op = 8;
            const char* n = "?";
            switch(op) {
            case 0: case 1: case 2: case 3: case 4: n = "push"; x.push(El<T>::make(k)); y.insert(k); break;
            case 6: n = "emplace-own"; if constexpr(El<T>::copyable) { if(!y.empty()) { int64_t t = El<T>::get(x.top()); const T& own = x.top(); x.emplace(own); y.insert(t); } break; } [[fallthrough]];
            case 5: n = "emplace"; if constexpr(El<T>::tracked) x.emplace(k); else x.emplace(El<T>::make(k)); y.insert(k); break;
            case 7: case 8: case 9: case 10: case 11: n = "pop"; if(!y.empty()) { int64_t t = El<T>::get(x.top()); auto it = y.find(t); if(it == y.end()) { mon::violation("heap.top", "top not in model"); return; } y.erase(it); x.pop(); } break;
            case 12: n = "reserve"; x.reserve(r(80)); break;
            case 13: n = "clear"; if(r(4) == 0) { x.clear(); y.clear(); } break;
            case 14: n = "clone"; h[1 - a] = x.clone(); m[1 - a] = y; break;
            case 15: { n = "move"; Heap<T, A> t = move(x); MON_CHECK(x.empty(), "heap.moved-from", "moved-from heap not empty"); check(t, y, n); if(r(2)) x = move(t); else y.clear(); break; }
            case 16: n = "move-assign"; h[1 - a] = move(x); m[1 - a] = y; y.clear(); break;
            case 17: n = "capacity-ctor"; x = Heap<T, A>(rpp::u64{r(9)}); y.clear(); break;
            case 18: n = "list-ctor"; x = Heap<T, A>{El<T>::make(17 * 3), El<T>::make(1), El<T>::make(16 * 9)}; y = {51, 1, 144}; break;
            case 19: n = "drain-clone"; { auto c = x.clone(); MS mm = y; drain(c, mm, "drain of a clone"); } break;
            }
            if(o < 12) { tr += n; tr += ' '; }
            hh = mon::mix(hh, (uint64_t)op * 128 + y.size());
            mon::ctx("heap<%s> step %d op %s len %zu", El<T>::name, o, n, y.size());
            for(int z = 0; z < 2; z++) if(!check(h[z], m[z], n)) return;
            if(El<T>::tracked && mon::reg().live_now() != (int64_t)(m[0].size() + m[1].size())) { mon::violation("heap.live-elements", "%lld live elements expected %zu after %s", (long long)mon::reg().live_now(), m[0].size() + m[1].size(), n); return; }
        }
        mon::distinct(hh); mon::sample(mon::fmt("Heap<%s>: %s...", El<T>::name, tr.c_str()));
        for(int z = 0; z < 2; z++) drain(h[z], m[z], "final drain");
    }
    mon::reg().case_end("Heap history");
}
// All permutations (with duplicates) of small key sets, then drain.
template<typename T> static void permutations(int n, bool dup) {
    std::vector<int64_t> p; for(int i = 0; i < n; i++) p.push_back(dup ? 16 * (i / 2 + 1) : 16 * (i + 1));
    std::sort(p.begin(), p.end());
    do { { Heap<T> h; MS m; for(auto x : p) { h.push(El<T>::make(x)); m.insert(x); } mon::ctx("heap permutation n=%d", n); check(h, m, "pushes"); drain(h, m, "permutation drain");
           uint64_t hs = (uint64_t)n; for(auto x : p) hs = mon::mix(hs, (uint64_t)x); mon::distinct(hs); }
         if(El<T>::tracked) mon::reg().case_end("Heap permutation"); } while(std::next_permutation(p.begin(), p.end()));
}
struct HNodeKids;
struct HNode {
    Trk t; HNodeKids* k; explicit HNode(int64_t v); HNode(HNode&& o) noexcept : t(move(o.t)), k(o.k) { o.k = nullptr; } HNode& operator=(HNode&& o) noexcept { t = move(o.t); auto* x = k; k = o.k; o.k = x; return *this; } ~HNode();  bool operator<(const HNode& o) const { return t.get() < o.t.get(); }
};
struct HNodeKids { Heap<HNode> c; };
HNode::HNode(int64_t v) : t(v), k(new HNodeKids) {}
HNode::~HNode() { delete k; }
static Heap<HNode>& kids(HNode& n) { return n.k->c; }
int main(int argc, char** argv) {
    mon::init(argc, argv, "C03", "random push/pop histories over 2 Heaps per element type, every permutation of up to 7 keys (with and without duplicates), and large random drains; distinct by (operation,length) sequence or permutation");
    mon::Rng r(mon::S().seed);
    if(mon::want("perm")) { for(int n = 1; n <= 7; n++) { permutations<int>(n, false); permutations<int>(n, true); permutations<Weak>(n, true); } for(int n = 1; n <= 6; n++) { permutations<Trk>(n, false); permutations<Cpy>(n, true); } }
    if(mon::want("history")) for(uint64_t i = 0, n = mon::n(200, 8000); i < n; i++) { int len = 20 + (int)r(150); history<int, Mdefault>(r, len); history<Pod, Mallocator<"Verif">>(r, len); history<Weak, Mhidden>(r, len); history<Trk, Mdefault>(r, len); history<Cpy, Mdefault>(r, len); }
    if(mon::want("owned")) for(uint64_t i = 0, n = mon::n(150, 3000); i < n; i++) owned_replace<HNode, Heap<HNode>>(r, "heap.owned-replace", "Heap", false, [](Heap<HNode>& c, HNode&& x) { c.push(rpp::move(x)); }, [](Heap<HNode>& c, auto f) { for(HNode& x : c) f(x); });
    if(mon::want("large")) for(uint64_t i = 0, n = mon::n(6, 60); i < n; i++) { Heap<int> h; MS m; int N = 500 + (int)r(3000); uint64_t rg = i % 2 ? 40 : 1u << 30; for(int k = 0; k < N; k++) { int x = (int)r(rg); h.push(int(x)); m.insert(x); } drain(h, m, "large drain"); }
    if(mon::want("large")) { // deep heaps, cloned and moved on the way
        std::vector<uint64_t> ns = {300, 5000, 66000, 140000 + r(20000)};
        if(mon::S().thorough) ns.push_back(1200000);
        for(uint64_t n : ns) for(int shape = 0; shape < 3; shape++) {
            mon::ctx("deep heap of %llu, shape %d", (unsigned long long)n, shape);
            Heap<int> h; std::vector<int64_t> m;
            for(uint64_t k = 0; k < n; k++) { int x = shape == 0 ? (int)r(1u << 30) : shape == 1 ? (int)(n - k) : (int)(r(100) * 3); h.push(int(x)); m.push_back(x); }
            std::sort(m.begin(), m.end());
            Heap<int> c = h.clone(), d = move(h);
            c.reserve(c.length() * 2 + 5);
            for(auto* z : {&c, &d}) {
                uint64_t i = 0;
                for(; i < n && !z->empty(); i++) { if(z->top() != m[i]) { mon::violation("heap.drain", "deep heap of %llu: %d is number %llu, expected %lld", (unsigned long long)n, z->top(), (unsigned long long)i, (long long)m[i]); break; } z->pop(); }
                MON_CHECK(i < n || z->empty(), "heap.drain", "deep heap of %llu: elements left over", (unsigned long long)n);
                MON_CHECK(i == n, "heap.drain", "deep heap of %llu gave %llu elements in order", (unsigned long long)n, (unsigned long long)i);
                mon::eval(n);
            }
            mon::distinct(mon::mix(n, (uint64_t)shape + 5));
        }
    }
    mon::count("elements_constructed", mon::reg().made); mon::count("elements_destroyed", mon::reg().destroyed);
    return mon::finish();
}
