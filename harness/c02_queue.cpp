// C02: Queue against std::deque.
#include "mon.h"
#include "owned.h"
#include <rpp/base.h>
using namespace rpp;
typedef std::deque<int64_t> D;

template<typename T, typename A> static bool check(const Queue<T, A>& q, const D& m, const char* op) {
    mon::eval();
    if(q.length() != m.size() || q.empty() != m.empty()) { mon::violation("queue.length", "%s: length %llu expected %zu after %s", El<T>::name, (unsigned long long)q.length(), m.size(), op); return false; }
    for(size_t i = 0; i < m.size(); i++) if(El<T>::get(q[i]) != m[i]) { mon::violation("queue.content", "%s: [%zu]=%lld expected %lld after %s", El<T>::name, i, (long long)El<T>::get(q[i]), (long long)m[i], op); return false; }
    size_t i = 0;
    for(const T& x : q) { if(i >= m.size() || El<T>::get(x) != m[i]) { mon::violation("queue.iteration", "%s: iteration differs at %zu after %s", El<T>::name, i, op); return false; } i++; }
    MON_CHECK(i == m.size(), "queue.iteration", "iteration visited %zu of %zu", i, m.size());
    i = 0;
    for(auto it = q.begin(); it != q.end(); ++it, i++) if(it.operator->() != &*it || &*it != &q[i]) { mon::violation("queue.iteration", "arrow, star and index differ at %zu after %s", i, op); return false; }
    if(m.size() > 0) { MON_CHECK(El<T>::get(q.front()) == m.front(), "queue.front", "front wrong after %s", op); MON_CHECK(El<T>::get(q.back()) == m.back(), "queue.back", "back wrong after %s", op); }
    if(m.size() > 1) MON_CHECK(El<T>::get(q.penultimate()) == m[m.size() - 2], "queue.penultimate", "penultimate wrong after %s", op);
    return true;
}
template<typename T, typename A> static bool check_mut(Queue<T, A>& q, const D& m, const char* op) {
    size_t i = 0;
    for(auto it = q.begin(); !(it == q.end());) { if(i % 2 == 0) { if(&*it != it.operator->()) { mon::violation("queue.iteration", "arrow and star differ"); return false; } } if(i >= m.size() || El<T>::get(*it) != m[i]) { mon::violation("queue.iteration", "mutable iteration wrong after %s", op); return false; } i++; auto before = i % 3 == 0 ? it++ : (++it, it); (void)before; if(i % 3 == 0 && before == it) { mon::violation("queue.iteration", "postfix increment returned the new position"); return false; } }
    MON_CHECK(i == m.size(), "queue.iteration", "mutable iteration visited %zu of %zu", i, m.size());
    if(m.size() > 0) MON_CHECK(El<T>::get(q.front()) == m.front() && El<T>::get(q.back()) == m.back() && El<T>::get(q[m.size() - 1]) == m.back(), "queue.ends", "mutable ends wrong after %s", op);
    if(m.size() > 1) MON_CHECK(El<T>::get(q.penultimate()) == m[m.size() - 2], "queue.penultimate", "mutable penultimate wrong after %s", op);
    return true;
}

template<typename T, typename A> static void history(mon::Rng& r, int nops) {
    {
        Queue<T, A> q[2]; D m[2]; uint64_t h = sizeof(T);
        std::string trace;
        int64_t range = 1 + (int64_t)r(40); // small ranges make duplicates for erase_first
        for(int o = 0; o < nops; o++) {
            int a = (int)r(2), op = (int)r(26);
            Queue<T, A>& x = q[a]; D& y = m[a];
            int64_t k = (int64_t)r((uint64_t)range) + 1;
            const char* n = "?";
            if(y.size() > 60) op = 8;
            switch(op) {
            case 0: case 1: case 2: case 3: { n = "push"; T& ref = x.push(El<T>::make(k)); y.push_back(k); MON_CHECK(&ref == &x.back(), "queue.push-ref", "push reference is not back()"); break; }
            case 4: case 5: { n = "emplace"; if constexpr(El<T>::tracked) { T& ref = x.emplace(k); MON_CHECK(&ref == &x.back(), "queue.emplace-ref", "emplace reference is not back()"); } else x.emplace(El<T>::make(k)); y.push_back(k); break; }
            case 6: n = "push-copy"; if constexpr(El<T>::copyable) { if(!y.empty()) { size_t i = r(y.size()); int64_t kk = y[i]; const T& own = x[i]; x.push(own); y.push_back(kk); } } break;
            case 7: case 8: case 9: case 10: case 11: n = "pop"; if(!y.empty()) { x.pop(); y.pop_front(); } break;
            case 12: { n = "reserve"; x.reserve(r(80)); break; }
            case 13: n = "clear"; if(r(4) == 0) { x.clear(); y.clear(); } break;
            case 14: { n = "clone"; q[1 - a] = x.clone(); m[1 - a] = y; if(!y.empty()) { El<T>::set(q[1 - a].front(), 41); m[1 - a][0] = 41; } break; }
            case 15: { n = "move"; Queue<T, A> t = move(x); MON_CHECK(x.empty() && x.length() == 0, "queue.moved-from", "moved-from queue not empty"); check(t, y, n); if(r(2)) x = move(t); else y.clear(); break; }
            case 16: n = "move-assign"; q[1 - a] = move(x); m[1 - a] = y; y.clear(); break;
            case 17: case 18: case 19: { n = "erase_first"; T key = El<T>::make(k); bool got = x.erase_first(key); auto it = std::find(y.begin(), y.end(), k); bool exp = it != y.end(); if(exp) y.erase(it);
                MON_CHECK(got == exp, "queue.erase_first", "erase_first(%lld) returned %d expected %d", (long long)k, got, exp); break; }
            case 20: { n = "capacity-ctor"; x = Queue<T, A>(rpp::u64{r(9)}); y.clear(); break; }
            case 21: { n = "list-ctor"; x = Queue<T, A>{El<T>::make(1), El<T>::make(2), El<T>::make(3)}; y = {1, 2, 3}; break; }
            case 22: n = "set"; if(!y.empty()) { size_t i = r(y.size()); El<T>::set(x[i], k); y[i] = k; } break;
            case 24: n = "emplace-own"; if constexpr(El<T>::copyable) if(!y.empty()) { size_t i = r(y.size()); int64_t kk = y[i]; const T& own = x[i]; T& ref = x.emplace(own); y.push_back(kk); MON_CHECK(&ref == &x.back(), "queue.emplace-ref", "emplace reference is not back()"); } break;
            case 25: n = "push-own-moved"; if constexpr(requires(T& p, T q) { p = rpp::move(q); }) if(!y.empty()) { size_t i = r(y.size()); int64_t kk = y[i]; T& ref = x.push(rpp::move(x[i])); MON_CHECK(&ref == &x.back(), "queue.push-ref", "push reference is not back()"); x[i] = El<T>::make(k); y[i] = k; y.push_back(kk); } break;
            case 23: n = "rotate"; for(int z = 0, c = (int)r(12); z < c && !y.empty(); z++) { int64_t f = y.front(); x.push(El<T>::make(f)); y.push_back(f); x.pop(); y.pop_front(); } break;
            }
            if(o < 12) { trace += n; trace += ' '; }
            h = mon::mix(h, (uint64_t)op * 128 + y.size());
            mon::ctx("queue<%s> step %d op %s len %zu", El<T>::name, o, n, y.size());
            for(int z = 0; z < 2; z++) { if(!check(q[z], m[z], n)) return; if(!check_mut(q[z], m[z], n)) return; }
            if(El<T>::tracked && mon::reg().live_now() != (int64_t)(m[0].size() + m[1].size())) { mon::violation("queue.live-elements", "%lld live elements expected %zu after %s", (long long)mon::reg().live_now(), m[0].size() + m[1].size(), n); return; }
        }
        mon::distinct(h);
        mon::sample(mon::fmt("Queue<%s>: %s...", El<T>::name, trace.c_str()));
        for(int z = 0; z < 2; z++) while(!m[z].empty()) { MON_CHECK(El<T>::get(q[z].front()) == m[z].front(), "queue.fifo", "drain order wrong"); q[z].pop(); m[z].pop_front(); }
    }
    mon::reg().case_end("Queue history");
}

// Every ring offset x length x operation for small capacities.
template<typename T> static void corners() {
    for(uint64_t cap = 1; cap <= 9; cap++) for(uint64_t off = 0; off < cap; off++) for(uint64_t len = 0; len <= cap; len++) for(int op = 0; op < 8 + (int)len; op++) {
        {
            mon::ctx("queue<%s> corner cap %llu off %llu len %llu op %d", El<T>::name, (unsigned long long)cap, (unsigned long long)off, (unsigned long long)len, op);
            Queue<T> q(rpp::u64{cap}); D m;
            for(uint64_t i = 0; i < off; i++) { q.push(El<T>::make(100)); q.pop(); }
            for(uint64_t i = 0; i < len; i++) { q.push(El<T>::make((int64_t)i + 1)); m.push_back((int64_t)i + 1); }
            const char* n = "none";
            switch(op) {
            case 0: q.push(El<T>::make(99)); m.push_back(99); n = "push"; break;
            case 1: if(len) { q.pop(); m.pop_front(); } n = "pop"; break;
            case 2: q.reserve(cap + 1); n = "reserve"; break;
            case 3: { auto c = q.clone(); check(c, m, "clone"); c.push(El<T>::make(7)); D m2 = m; m2.push_back(7); check(c, m2, "push after clone"); n = "clone"; break; }
            case 4: q.clear(); m.clear(); q.push(El<T>::make(3)); m.push_back(3); n = "clear+push"; break;
            case 5: { Queue<T> w = move(q); check(w, m, "move"); m.clear(); q.push(El<T>::make(3)); m.push_back(3); n = "move"; break; }
            case 6: { auto missing = El<T>::make(77); MON_CHECK(!q.erase_first(missing), "queue.erase_first", "erased a missing value"); n = "erase-missing"; break; }
            case 7: q.grow(); n = "grow"; break;
            default: { auto key = El<T>::make(op - 7); MON_CHECK(q.erase_first(key), "queue.erase_first", "did not find a present value"); m.erase(m.begin() + (op - 8)); n = "erase_first"; }
            }
            if(!check(q, m, n)) return;
            q.push(El<T>::make(55)); m.push_back(55);
            if(!check(q, m, "push afterwards")) return;
            check_mut(q, m, n);
            if(El<T>::tracked) MON_CHECK(mon::reg().live_now() - 0 == (int64_t)m.size(), "queue.live-elements", "%lld live, expected %zu after %s", (long long)mon::reg().live_now(), m.size(), n);
            mon::distinct(mon::mix(mon::mix(cap * 16 + off, len), (uint64_t)op * 64 + sizeof(T)));
        }
        mon::reg().case_end("Queue corner");
    }
}

// rings far bigger than the histories', wrapped at every kind of position when they are reallocated
template<typename T> static void large(uint64_t n, uint64_t off) {
    {
        auto val = [](uint64_t i) { return (int64_t)(i % 97) + 1; };
        uint64_t at = 0; // sequence number of the front element
        auto all = [&](const Queue<T>& q, uint64_t len, const char* op) {
            mon::eval(len);
            if(q.length() != len) return mon::violation("queue.large", "length %llu, expected %llu after %s", (unsigned long long)q.length(), (unsigned long long)len, op);
            for(uint64_t i = 0; i < len; i++) if(El<T>::get(q[i]) != val(at + i)) return mon::violation("queue.large", "element %llu of %llu (ring offset %llu) wrong after %s", (unsigned long long)i, (unsigned long long)len, (unsigned long long)off, op);
            uint64_t i = 0;
            for(const T& e : q) { if(El<T>::get(e) != val(at + i)) return mon::violation("queue.large", "iterating, element %llu of %llu wrong after %s", (unsigned long long)i, (unsigned long long)len, op); i++; }
            if(len && (El<T>::get(q.front()) != val(at) || El<T>::get(q.back()) != val(at + len - 1))) return mon::violation("queue.large", "front or back wrong after %s", op);
        };
        mon::ctx("large queue<%s> of %llu, offset %llu", El<T>::name, (unsigned long long)n, (unsigned long long)off);
        Queue<T> q; q.reserve(n);
        uint64_t next = 0;
        for(; next < off; next++) q.push(El<T>::make(val(next)));
        for(uint64_t i = 0; i < off; i++) q.pop();
        at = off;
        for(; next < off + n; next++) q.push(El<T>::make(val(next)));
        all(q, n, "filling the ring");
        Queue<T> c = q.clone();
        all(c, n, "clone");
        c.reserve(2 * n + 3);
        all(c, n, "reserve");
        q.push(El<T>::make(val(next))); // grows the wrapped ring
        all(q, n + 1, "growing");
        if(n > 4) { // the clone keeps working as a ring
            for(uint64_t i = 0; i < n / 2; i++) c.pop();
            at += n / 2;
            for(uint64_t i = 0; i < n / 2; i++) c.push(El<T>::make(val(next + i)));
            all(c, n / 2 * 2 + n % 2, "half a turn");
        }
        c = move(q); at = off;
        all(c, n + 1, "move assignment");
        mon::distinct(mon::mix(n, off * 64 + sizeof(T)));
    }
    mon::reg().case_end("large Queue");
}
struct QNodeKids;
struct QNode {
    Trk t; QNodeKids* k; explicit QNode(int64_t v); QNode(QNode&& o) noexcept : t(move(o.t)), k(o.k) { o.k = nullptr; } QNode& operator=(QNode&& o) noexcept { t = move(o.t); auto* x = k; k = o.k; o.k = x; return *this; } ~QNode(); 
};
struct QNodeKids { Queue<QNode> c; };
QNode::QNode(int64_t v) : t(v), k(new QNodeKids) {}
QNode::~QNode() { delete k; }
static Queue<QNode>& kids(QNode& n) { return n.k->c; }
int main(int argc, char** argv) {
    mon::init(argc, argv, "C02", "random histories over 2 Queues per element type and exhaustive (capacity, ring offset, length, operation) corners for capacities 1..9; distinct by (operation, length) sequence or corner tuple");
    mon::Rng r(mon::S().seed);
    if(mon::want("corners")) { corners<int>(); corners<Pod>(); corners<Trk>(); corners<Cpy>(); }
    if(mon::want("history")) for(uint64_t i = 0, n = mon::n(500, 15000); i < n; i++) {
        int len = 20 + (int)r(150);
        history<int, Mdefault>(r, len); history<uint8_t, Mhidden>(r, len); history<Pod, Mallocator<"Verif">>(r, len); history<Trk, Mdefault>(r, len); history<Cpy, Mdefault>(r, len);
    }
    if(mon::want("owned")) for(uint64_t i = 0, n = mon::n(150, 3000); i < n; i++) owned_replace<QNode, Queue<QNode>>(r, "queue.owned-replace", "Queue", true, [](Queue<QNode>& c, QNode&& x) { if(x.t.get() % 2) { c.push(QNode(1)); c.pop(); } c.push(rpp::move(x)); }, [](Queue<QNode>& c, auto f) { for(QNode& x : c) f(x); });
    if(mon::want("large")) for(int rep = 0; rep < 5; rep++) { // long-lived queue: millions of passes through the ring
        Queue<int> q; D m; 
        for(int i = 0; i < 20000; i++) { unsigned c = (unsigned)r(100); if(c < 53) { q.push(i); m.push_back(i); } else if(!m.empty()) { if(q.front() != m.front()) { mon::violation("queue.fifo", "front differs in long run at %d", i); break; } q.pop(); m.pop_front(); } if(q.length() != m.size()) { mon::violation("queue.length", "length differs in long run"); break; } mon::eval(); }
        check(q, m, "long run");
    }
    if(mon::want("large")) {
        std::vector<uint64_t> ns = {256, 257, 1000 + r(200), 4096, 16384, 65536, 65537 + r(3000)};
        if(mon::S().thorough) for(uint64_t k = 8; k <= 17; k++) for(uint64_t d = 0; d < 3; d++) ns.push_back((1ull << k) - 1 + d);
        for(uint64_t n : ns) for(uint64_t off : {uint64_t(0), uint64_t(1), n / 2, n - 1, r(n)}) { large<int>(n, off); if(n < 20000 || off == n / 2) { large<uint8_t>(n, off); large<Pod>(n, off); large<Trk>(n, off); large<Cpy>(n, off); } }
    }
    mon::count("elements_constructed", mon::reg().made); mon::count("elements_moved", mon::reg().moved); mon::count("elements_destroyed", mon::reg().destroyed);
    return mon::finish();
}
