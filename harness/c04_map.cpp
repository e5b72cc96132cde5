// C04: Map against std::map, with adversarial hashes and element lifetime registry.
#include "mon.h"
#include "owned.h"
#include <rpp/base.h>
using namespace rpp;

static int g_hash_mode = 0; // how keys of type HK hash
struct HK { long long k; bool operator==(const HK& o) const { return k == o.k; } };
static uint64_t adv_hash(int64_t k) {
    uint64_t u = (uint64_t)k;
    switch(g_hash_mode) {
    case 0: return 0;                                   // everything collides
    case 1: return ~0ull;                               // everything collides in the last bucket
    case 2: return (u % 3) << 62;                       // three buckets
    case 3: return u << 58;                             // neighbouring buckets, probe chains interleave
    case 4: return ~0ull - (u << 56);                   // chains wrap around the end of the table
    case 5: return u * 0x9E3779B97F4A7C15ull;           // well spread
    case 6: return (u & 7) ? 0xFFFFFFFF00000000ull + (u << 8) : u; // a cluster plus low buckets
    case 8: return (u / 2) * 0x9E3779B97F4A7C15ull;     // keys share a whole hash in pairs
    case 9: return (u / 5) * 0xFF51AFD7ED558CCDull;
    default: return rpp::hash((rpp::i64)k);
    }
}
namespace rpp::Hash { template<> struct Hash<HK> { static u64 hash(const HK& k) { return adv_hash(k.k); } };
template<> struct Hash<Trk> { static u64 hash(const Trk& k) { return adv_hash(k.get()); } };
template<> struct Hash<Cpy> { static u64 hash(const Cpy& k) { return adv_hash(k.get()); } }; }

namespace rpp { RPP_NAMED_RECORD(::HK, "HK", RPP_FIELD(k)); RPP_NAMED_RECORD(::Trk, "Trk", RPP_FIELD(v)); RPP_NAMED_RECORD(::Cpy, "Cpy", RPP_FIELD(v)); }

template<typename K> struct KE;
template<> struct KE<int> { static constexpr const char* n = "int"; static int mk(int64_t x) { return (int)x; } static int64_t id(int k) { return k; } static constexpr bool copy = true; };
template<> struct KE<u64> { static constexpr const char* n = "u64"; static u64 mk(int64_t x) { return (u64)x << 40; } static int64_t id(u64 k) { return (int64_t)(k >> 40); } static constexpr bool copy = true; };
template<> struct KE<HK> { static constexpr const char* n = "adversarial"; static HK mk(int64_t x) { return HK{x}; } static int64_t id(const HK& k) { return k.k; } static constexpr bool copy = true; };
template<> struct KE<Trk> { static constexpr const char* n = "tracked"; static Trk mk(int64_t x) { return Trk(x); } static int64_t id(const Trk& k) { return k.get(); } static constexpr bool copy = false; };
template<> struct KE<Cpy> { static constexpr const char* n = "tracked-copyable"; static Cpy mk(int64_t x) { return Cpy(x); } static int64_t id(const Cpy& k) { return k.get(); } static constexpr bool copy = true; };
template<> struct KE<String<>> { static constexpr const char* n = "String"; static constexpr bool copy = false;
    static std::string s(int64_t x) { return (x & 1 ? "key-with-a-long-common-prefix-" : "k") + std::to_string(x); }
    static String<> mk(int64_t x) { std::string t = s(x); return String_View{(const u8*)t.data(), t.size()}.string(); }
    static int64_t id(const String<>& k) { std::string t((const char*)k.data(), k.length()); size_t p = t.find_first_of("0123456789"); return p == std::string::npos ? -1 : atoll(t.c_str() + p); } };

template<typename K, typename V, typename A> static bool check(Map<K, V, A>& mp, std::map<int64_t, int64_t>& m, const char* op, int64_t universe, bool full) {
    mon::eval();
    const Map<K, V, A>& c = mp;
    if(c.length() != m.size() || c.empty() != m.empty()) { mon::violation("map.length", "%s: length %llu expected %zu after %s", KE<K>::n, (unsigned long long)c.length(), m.size(), op); return false; }
    std::map<int64_t, int64_t> seen;
    size_t cnt = 0;
    for(const auto& kv : c) { cnt++; int64_t id = KE<K>::id(kv.first); if(cnt > m.size() || !seen.emplace(id, El<V>::get(kv.second)).second) { mon::violation("map.iteration", "%s: iteration repeats or exceeds entries (key %lld) after %s", KE<K>::n, (long long)id, op); return false; } }
    for(auto it = c.begin(); it != c.end(); ++it) if(it.operator->() != &*it || seen.find(KE<K>::id(it->first)) == seen.end()) { mon::violation("map.iteration", "%s: arrow and star differ after %s", KE<K>::n, op); return false; }
    if(seen != m) { mon::violation("map.iteration", "%s: iteration shows different entries (%zu vs %zu) after %s", KE<K>::n, seen.size(), m.size(), op); return false; }
    if(full) {
        for(int64_t id = 0; id <= universe; id++) {
            K k = KE<K>::mk(id); auto it = m.find(id);
            bool has = c.contains(k);
            if(has != (it != m.end())) { mon::violation("map.contains", "%s: contains(%lld)=%d expected %d after %s", KE<K>::n, (long long)id, has, it != m.end(), op); return false; }
            auto g = mp.try_get(k); auto gc = c.try_get(k);
            if(g.ok() != has || gc.ok() != has) { mon::violation("map.try_get", "%s: try_get(%lld) disagrees with contains after %s", KE<K>::n, (long long)id, op); return false; }
            if(has) {
                if(El<V>::get(**g) != it->second || El<V>::get(**gc) != it->second || El<V>::get(c.get(k)) != it->second || &mp.get(k) != &**g) { mon::violation("map.value", "%s: value of %lld is %lld expected %lld after %s", KE<K>::n, (long long)id, (long long)El<V>::get(**g), (long long)it->second, op); return false; }
            }
            if constexpr(__is_same(K, String<>)) {
                std::string s = KE<K>::s(id); std::string pad = s + "garbage"; String_View sv{(const u8*)pad.data(), s.size()};
                if(c.contains(sv) != has || mp.try_get(sv).ok() != has) { mon::violation("map.string-view-lookup", "lookup by view of %s wrong after %s", s.c_str(), op); return false; }
                if(has && El<V>::get(mp.get(sv)) != it->second) { mon::violation("map.string-view-lookup", "value by view of %s wrong", s.c_str()); return false; }
            }
        }
        size_t n2 = 0; for(auto& kv : mp) { n2++; if(El<V>::get(kv.second) != m[KE<K>::id((const K&)kv.first)]) { mon::violation("map.iteration", "mutable iteration value wrong"); return false; } }
        MON_CHECK(n2 == m.size(), "map.iteration", "mutable iteration count wrong");
    }
    return true;
}
template<typename K, typename V> constexpr int tracked_per_entry = (__is_same(K, Trk) || __is_same(K, Cpy)) + El<V>::tracked;

template<typename K, typename V, typename A> static void history(mon::Rng& r, int nops, int64_t universe) {
    {
        Map<K, V, A> mp[2]; std::map<int64_t, int64_t> m[2]; std::string tr; uint64_t h = (uint64_t)g_hash_mode * 31 + sizeof(K);
        int erase_bias = (int)r(8);
        if(r(2)) mp[0] = Map<K, V, A>(rpp::u64{r(70)});
        if(r(3) == 0) mp[1].reserve(r(70));
        for(int o = 0; o < nops; o++) {
            int a = (int)r(2), op = (int)r(30); Map<K, V, A>& x = mp[a]; auto& y = m[a];
            int64_t k = (int64_t)r((uint64_t)universe), v = (int64_t)r(90) + 1;
            if(op < erase_bias && !y.empty() && r(2)) op = 10;
            const char* n = "?";
            mon::ctx("map<%s,%s> mode %d step %d op %d len %zu", KE<K>::n, El<V>::name, g_hash_mode, o, op, y.size());
            switch(op) {
            case 0: case 1: case 2: case 3: case 4: case 5: { n = "insert"; V& ref = x.insert(KE<K>::mk(k), El<V>::make(v)); y[k] = v;
                if(El<V>::get(ref) != v) { mon::violation("map.insert-ref", "%s: insert(%lld) returned a reference to another value", KE<K>::n, (long long)k); return; }
                auto g = x.try_get(KE<K>::mk(k)); if(!g.ok() || &**g != &ref) { mon::violation("map.insert-ref", "%s: insert reference is not the stored value", KE<K>::n); return; } break; }
            case 6: { n = "insert-copy"; if constexpr(KE<K>::copy && El<V>::copyable) { K kk = KE<K>::mk(k); V vv = El<V>::make(v); V& ref = r(2) ? x.insert(kk, vv) : r(2) ? x.insert(KE<K>::mk(k), vv) : x.insert(kk, El<V>::make(v)); MON_CHECK(El<V>::get(ref) == v, "map.insert-ref", "insert reference wrong"); y[k] = v; } break; }
            case 7: { n = "emplace"; V& ref = x.emplace(KE<K>::mk(k), El<V>::make(v)); y[k] = v; auto g = x.try_get(KE<K>::mk(k)); if(!g.ok() || &**g != &ref || El<V>::get(ref) != v) { mon::violation("map.emplace-ref", "%s: emplace(%lld) returned a wrong reference", KE<K>::n, (long long)k); return; } break; }
            case 8: case 9: { n = "get_or_insert"; bool had = y.count(k); V& ref = x.get_or_insert(KE<K>::mk(k)); if(!had) y[k] = 0; MON_CHECK(El<V>::get(ref) == y[k], "map.get_or_insert", "returned %lld expected %lld", (long long)El<V>::get(ref), (long long)y[k]);
                El<V>::set(ref, v); y[k] = v; break; }
            case 10: case 11: case 12: case 13: case 14: { n = "try_erase"; bool e = x.try_erase(KE<K>::mk(k)); bool exp = y.erase(k); MON_CHECK(e == exp, "map.try_erase", "%s: try_erase(%lld)=%d expected %d", KE<K>::n, (long long)k, e, exp); break; }
            case 15: { n = "erase"; if(!y.empty()) { auto it = y.begin(); std::advance(it, (long)r(y.size())); x.erase(KE<K>::mk(it->first)); y.erase(it); } break; }
            case 16: n = "reserve"; x.reserve(r(140)); break;
            case 17: n = "clear"; if(r(5) == 0) { x.clear(); y.clear(); } break;
            case 18: { n = "clone"; mp[1 - a] = x.clone(); m[1 - a] = y; if(!y.empty()) { int64_t k0 = y.begin()->first; El<V>::set(mp[1 - a].get(KE<K>::mk(k0)), 93); m[1 - a][k0] = 93; } break; }
            case 19: { n = "move"; Map<K, V, A> t = move(x); MON_CHECK(x.empty() && x.length() == 0, "map.moved-from", "moved-from map not empty"); MON_CHECK(!x.contains(KE<K>::mk(k)), "map.moved-from", "moved-from map contains a key"); if(r(2)) x = move(t); else y.clear(); break; }
            case 20: n = "move-assign"; mp[1 - a] = move(x); m[1 - a] = y; y.clear(); break;
            case 21: n = "capacity-ctor"; if(r(3) == 0) { x = Map<K, V, A>(rpp::u64{r(12)}); y.clear(); } break;
            case 22: n = "list-ctor"; if(r(3) == 0) { x = Map<K, V, A>{Pair<K, V>{KE<K>::mk(1), El<V>::make(11)}, Pair<K, V>{KE<K>::mk(2), El<V>::make(12)}, Pair<K, V>{KE<K>::mk(1), El<V>::make(13)}}; y = {{1, 13}, {2, 12}}; } break;
            case 23: n = "overwrite"; if(!y.empty()) { auto it = y.begin(); std::advance(it, (long)r(y.size())); V& ref = x.insert(KE<K>::mk(it->first), El<V>::make(v)); it->second = v; MON_CHECK(El<V>::get(ref) == v, "map.insert-ref", "overwrite reference wrong"); } break;
            case 24: n = "write-through-iteration"; for(auto& kv : x) El<V>::set(kv.second, v); for(auto& kv : y) kv.second = v; break;
            case 26: case 27: { n = "insert-own"; if constexpr(El<V>::copyable) if(!y.empty()) { auto it = y.begin(); std::advance(it, (long)r(y.size())); int64_t vv = it->second; const V& own = x.get(KE<K>::mk(it->first));
                V& ref = op == 26 ? x.emplace(KE<K>::mk(k), own) : x.insert(KE<K>::mk(k), own); y[k] = vv; if(El<V>::get(ref) != vv) { mon::violation("map.insert-ref", "%s: putting an own value under key %lld stored another one", KE<K>::n, (long long)k); return; } } break; }
            case 28: case 29: { n = "insert-own-moved"; if(!y.empty()) { auto it = y.begin(); std::advance(it, (long)r(y.size())); int64_t vv = it->second, k0 = it->first; V& own = x.get(KE<K>::mk(k0));
                V& ref = op == 28 ? x.emplace(KE<K>::mk(k), move(own)) : x.insert(KE<K>::mk(k), move(own)); if(El<V>::get(ref) != vv) { mon::violation("map.insert-ref", "%s: moving an own value under key %lld stored another one", KE<K>::n, (long long)k); return; }
                y[k] = vv; if(k != k0) { x.erase(KE<K>::mk(k0)); y.erase(k0); } } break; }
            case 25: n = "grow"; if(r(6) == 0 && y.size() < 60) x.grow(); break;
            }
            if(o < 12) { tr += n; tr += ' '; }
            h = mon::mix(h, (uint64_t)op * 256 + y.size());
            for(int z = 0; z < 2; z++) if(!check(mp[z], m[z], n, universe, z == a || o % 8 == 0)) return;
            if(constexpr int t = tracked_per_entry<K, V>; t > 0) if(mon::reg().live_now() != (int64_t)(t * (m[0].size() + m[1].size()))) { mon::violation("map.live-elements", "%s: %lld live objects expected %zu after %s", KE<K>::n, (long long)mon::reg().live_now(), t * (m[0].size() + m[1].size()), n); return; }
        }
        mon::distinct(h); mon::sample(mon::fmt("Map<%s,%s> mode %d universe %lld: %s...", KE<K>::n, El<V>::name, g_hash_mode, (long long)universe, tr.c_str()));
    }
    mon::reg().case_end("Map history");
}
// Every starting capacity; fill well past it.
template<typename K, typename V> static void capacities() {
    for(uint64_t cap = 0; cap <= 70; cap++) for(int how = 0; how < 3; how++) {
        {
            mon::ctx("map<%s> capacity %llu how %d", KE<K>::n, (unsigned long long)cap, how);
            Map<K, V> x; std::map<int64_t, int64_t> m;
            if(how == 0) x = Map<K, V>(rpp::u64{cap}); else x.reserve(cap);
            if(how == 2) { auto c = x.clone(); x = move(c); }
            if(!check(x, m, "construction", 3, true)) return;
            for(int64_t i = 0; i < (int64_t)cap + 40; i++) { x.insert(KE<K>::mk(i), El<V>::make(i % 50 + 1)); m[i] = i % 50 + 1; if(i < 4 || i == (int64_t)cap) if(!check(x, m, "fill", i + 2, true)) return; }
            if(!check(x, m, "filled", (int64_t)cap + 45, true)) return;
            auto c = x.clone(); if(!check(c, m, "clone of filled", (int64_t)cap + 45, true)) return;
            for(int64_t i = 0; i < (int64_t)cap + 40; i += 2) { x.erase(KE<K>::mk(i)); m.erase(i); }
            if(!check(x, m, "half erased", (int64_t)cap + 45, true)) return;
            mon::distinct(mon::mix(cap * 3 + (uint64_t)how, sizeof(K)));
        }
        mon::reg().case_end("Map capacity case");
    }
}
// Dense tables under every hash mode: insert/erase all subsets of a colliding cluster in every order.
static void clusters(mon::Rng& r) {
    for(g_hash_mode = 0; g_hash_mode <= 9; g_hash_mode++) for(int n = 1; n <= 6; n++) {
        std::vector<int> p; for(int i = 0; i < n; i++) p.push_back(i);
        std::sort(p.begin(), p.end());
        do { for(int base = 0; base < 3; base++) {
            mon::ctx("map cluster mode %d n %d base %d", g_hash_mode, n, base);
            Map<HK, int> x(rpp::u64{8}); std::map<int64_t, int64_t> m;
            int64_t off = base * 3;
            for(int i = 0; i < n; i++) { x.insert(HK{i + off}, int(i + 1)); m[i + off] = i + 1; }
            for(int k : p) { MON_CHECK(x.try_erase(HK{k + off}), "map.try_erase", "present key %d not erased (mode %d)", k, g_hash_mode); m.erase(k + off); if(!check(x, m, "cluster erase", n + off, true)) return; }
            uint64_t hs = (uint64_t)(g_hash_mode * 8 + n) * 4 + (uint64_t)base; for(int k : p) hs = mon::mix(hs, (uint64_t)k); mon::distinct(hs);
        } } while(std::next_permutation(p.begin(), p.end()));
    }
    (void)r;
}
static void V_ref(Map<HK, int>& x, int k, int o) { int& ref = x.insert(HK{k}, int(o)); MON_CHECK(ref == o, "map.insert-ref", "reference to another value"); }
struct MNodeKids;
struct MNode {
    Trk t; MNodeKids* k; explicit MNode(int64_t v); MNode(MNode&& o) noexcept : t(move(o.t)), k(o.k) { o.k = nullptr; } MNode& operator=(MNode&& o) noexcept { t = move(o.t); auto* x = k; k = o.k; o.k = x; return *this; } ~MNode(); 
};
struct MNodeKids { Map<i64, MNode> c; };
MNode::MNode(int64_t v) : t(v), k(new MNodeKids) {}
MNode::~MNode() { delete k; }
static Map<i64, MNode>& kids(MNode& n) { return n.k->c; }
int main(int argc, char** argv) {
    mon::init(argc, argv, "C04", "random histories over 2 Maps per key/value type with eight hash shapes (all-colliding to well-spread), every initial capacity 0..70 by three routes, and every erase order of clusters up to 6 keys; distinct by (operation,length) sequence or tuple");
    mon::Rng r(mon::S().seed);
    g_hash_mode = 7;
    if(mon::want("capacities")) { capacities<int, int>(); capacities<HK, Trk>(); capacities<Trk, int>(); capacities<String<>, int>(); }
    if(mon::want("clusters")) clusters(r);
    if(mon::want("history")) for(uint64_t i = 0, n = mon::n(60, 2500); i < n; i++) {
        int len = 30 + (int)r(170); int64_t u = r(2) ? 3 + (int64_t)r(10) : 20 + (int64_t)r(80);
        g_hash_mode = (int)r(10);
        history<int, int, Mdefault>(r, len, u); history<u64, Pod, Mhidden>(r, len, u); history<HK, int, Mdefault>(r, len, u); history<HK, Trk, Mallocator<"Verif">>(r, len, u);
        history<Trk, Trk, Mdefault>(r, len / 2, u); history<Cpy, Cpy, Mdefault>(r, len / 2, u); history<Trk, int, Mdefault>(r, len / 2, u); history<String<>, int, Mdefault>(r, len / 2, u); history<String<>, Trk, Mdefault>(r, len / 3, u);
    }
    if(mon::want("owned")) for(uint64_t i = 0, n = mon::n(150, 3000); i < n; i++) owned_replace<MNode, Map<i64, MNode>>(r, "map.owned-replace", "Map", false, [](Map<i64, MNode>& c, MNode&& x) { i64 k = x.t.get(); while(c.contains(k)) k += 1000; c.insert(rpp::move(k), rpp::move(x)); }, [](Map<i64, MNode>& c, auto f) { for(auto& kv : c) f(kv.second); });
    if(mon::want("large")) for(uint64_t i = 0, n = mon::n(4, 40); i < n; i++) { // churn in a big table
        g_hash_mode = 7; Map<int, int> x; std::unordered_map<int, int> m; int uni = 200 + (int)r(6000);
        for(int o = 0; o < 20000; o++) { int k = (int)r((uint64_t)uni); if(r(100) < 55) { x.insert(int(k), int(o)); m[k] = o; } else { bool e = x.try_erase(k); if(e != (m.erase(k) > 0)) { mon::violation("map.try_erase", "churn: erase disagreement"); break; } }
            if(x.length() != m.size()) { mon::violation("map.length", "churn: %llu vs %zu", (unsigned long long)x.length(), m.size()); break; } mon::eval(); }
        size_t c = 0; for(auto& kv : x) { c++; auto it = m.find(kv.first); if(it == m.end() || it->second != kv.second) { mon::violation("map.iteration", "churn: stray entry"); break; } }
        MON_CHECK(c == m.size(), "map.iteration", "churn: %zu entries of %zu", c, m.size());
        for(auto& kv : m) if(!x.contains(kv.first) || x.get(kv.first) != kv.second) { mon::violation("map.value", "churn: lost key %d", kv.first); break; }
    }
    if(mon::want("large")) for(uint64_t i = 0, n = mon::n(3, 30); i < n; i++) { // the same with equal hashes for different keys
        g_hash_mode = 8 + (int)(i & 1); Map<HK, int> x; std::unordered_map<int, int> m; int uni = 2000 + (int)r(20000);
        for(int o = 0; o < 25000; o++) { int k = (int)r((uint64_t)uni); if(r(100) < 75) { V_ref(x, k, o); m[k] = o; } else { bool e = x.try_erase(HK{k}); if(e != (m.erase(k) > 0)) { mon::violation("map.try_erase", "churn: erase disagreement"); break; } }
            if(x.length() != m.size()) { mon::violation("map.length", "churn with equal hashes: %llu vs %zu", (unsigned long long)x.length(), m.size()); break; } mon::eval(); }
        for(int k = 0; k < uni; k++) { auto it = m.find(k); auto g = x.try_get(HK{k}); if(g.ok() != (it != m.end()) || (g.ok() && **g != it->second)) { mon::violation("map.value", "churn with equal hashes: key %d wrong", k); break; } }
        auto c = x.clone(); size_t seen = 0;
        for(auto it = c.begin(); !(it == c.end());) { auto at = it++; auto f = m.find((int)at->first.k); if(f == m.end() || f->second != at->second || (*at).second != f->second) { mon::violation("map.iteration", "stray entry in a clone"); break; } seen++; }
        MON_CHECK(seen == m.size(), "map.iteration", "clone shows %zu entries of %zu", seen, m.size());
        mon::distinct(mon::mix((u64)uni, m.size()));
    }
    if(mon::want("large")) { // tables far bigger than the histories', and clusters far longer
        std::vector<uint64_t> ns = {3000, 70000 + r(5000)};
        if(mon::S().thorough) ns.push_back(1000000);
        for(uint64_t n : ns) for(int shape = 0; shape < 2; shape++) {
            mon::ctx("table of %llu, shape %d", (unsigned long long)n, shape);
            auto key = [&](uint64_t i) { return (i64)(shape ? i * 4096 : i); };
            Map<i64, u64> x; bool bad = false;
            for(uint64_t i = 0; i < n && !bad; i++) {
                x.insert(key(i), i * 3);
                if(x.contains(-1 - (i64)i) || x.length() != i + 1) { mon::violation("map.value", "table of %llu: an absent key was found or the length is wrong", (unsigned long long)i); bad = true; }
            }
            auto all = [&](Map<i64, u64>& t, uint64_t from, const char* op) {
                for(uint64_t i = 0; i < n; i++) { auto g = t.try_get(key(i)); if(g.ok() != (i >= from) || (g.ok() && **g != i * 3)) return mon::violation("map.value", "table of %llu: key %lld wrong after %s", (unsigned long long)n, (long long)key(i), op); }
                uint64_t c = 0, sum = 0; for(auto& kv : t) { c++; sum += kv.second; }
                if(c != n - from || sum != 3 * (n * (n - 1) / 2 - from * (from - (from > 0)) / 2)) return mon::violation("map.iteration", "table of %llu: iteration shows %llu entries after %s", (unsigned long long)n, (unsigned long long)c, op);
                mon::eval(n);
            };
            all(x, 0, "inserting");
            auto c = x.clone(); all(c, 0, "clone");
            for(uint64_t i = 0; i < n / 2; i++) if(!x.try_erase(key(i)) || x.try_erase(key(i))) { mon::violation("map.try_erase", "table of %llu: erasing key %lld", (unsigned long long)n, (long long)key(i)); break; }
            all(x, n / 2, "erasing half");
            all(c, 0, "erasing from the original");
            mon::distinct(mon::mix(n, (uint64_t)shape + 99));
        }
        for(int mode = 0; mode < 10; mode++) {
            g_hash_mode = mode;
            int n = (int)r.range(600, 700);
            mon::ctx("cluster of %d keys, mode %d", n, mode);
            Map<HK, int> x; 
            for(int i = 0; i < n; i++) x.insert(HK{i}, int(i * 2));
            auto all = [&](int from, const char* op) { for(int i = 0; i < n + 3; i++) { auto g = x.try_get(HK{i}); bool want = i >= from && i < n; mon::eval(); if(g.ok() != want || (want && **g != i * 2)) return mon::violation("map.value", "long cluster, mode %d: key %d wrong after %s", mode, i, op); } if((int)x.length() != n - from) mon::violation("map.length", "long cluster, mode %d: length wrong after %s", mode, op); };
            all(0, "inserting");
            for(int i = 0; i < n / 3; i++) if(!x.try_erase(HK{i})) mon::violation("map.try_erase", "long cluster, mode %d: key %d not erased", mode, i);
            all(n / 3, "erasing");
            for(int i = n / 3; i-- > 0;) x.insert(HK{i}, int(i * 2));
            all(0, "inserting again");
            mon::distinct(mon::mix((uint64_t)n, (uint64_t)mode + 999));
        }
    }
    mon::count("elements_constructed", mon::reg().made); mon::count("elements_destroyed", mon::reg().destroyed);
    return mon::finish();
}
