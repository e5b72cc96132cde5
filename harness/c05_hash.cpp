// C05: equality implies equal hashes; different contents do not collide; keys are found again.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/vmath.h>
using namespace rpp;

static std::string hex(const std::string& s) { std::string o; for(unsigned char c : s) o += mon::fmt("%02x", c); return o; }
static String_View sv(const std::string& s) { return String_View{(const u8*)s.data(), s.size()}; }

// Records (contents, hash) pairs of pairwise different keys: no 64-bit collisions, and the high bits
// (which index the map's buckets) stay spread out.
struct Spread {
    const char* name; std::unordered_map<uint64_t, std::string> seen; std::vector<uint64_t> hs;
    explicit Spread(const char* n) : name(n) {}
    void add(uint64_t h, const std::string& what) {
        mon::eval();
        auto [it, fresh] = seen.emplace(h, what);
        if(!fresh && it->second != what) mon::violation("hash.collision", "%s: %s and %s both hash to %llx", name, what.substr(0, 80).c_str(), it->second.substr(0, 80).c_str(), (unsigned long long)h);
        if(fresh) { hs.push_back(h); mon::distinct(h); }
    }
    void done() {
        if(hs.size() < 512) return;
        int bits = 1; while((2ull << bits) * 2 <= hs.size()) bits++;           // 2..4 keys per bucket
        std::vector<uint32_t> b(1ull << bits); for(auto h : hs) b[h >> (64 - bits)]++;
        uint64_t empty = 0, mx = 0; for(auto c : b) { empty += c == 0; mx = std::max<uint64_t>(mx, c); }
        double load = (double)hs.size() / (double)b.size(), e = std::exp(-load) * (double)b.size();
        mon::count_max("max_bucket_load", mx);
        MON_CHECK(mx < 24 + 4 * load, "hash.clustered", "%s: %zu keys put %llu in one of %zu buckets", name, hs.size(), (unsigned long long)mx, b.size());
        MON_CHECK((double)empty < 2.0 * e + 64, "hash.clustered", "%s: %llu of %zu buckets empty, about %.0f expected", name, (unsigned long long)empty, b.size(), e);
    }
};
template<typename T> static void ints(const char* name, mon::Rng& r) {
    Spread sp(name); std::set<T> ks;
    std::vector<T> edge{T(0), T(1), T(-1), std::numeric_limits<T>::min(), std::numeric_limits<T>::max()};
    for(size_t i = 0; i < sizeof(T) * 8; i++) edge.push_back(T(1ull << i));
    for(T e : edge) ks.insert(e);
    for(int i = -3000; i < 3000; i++) ks.insert(T(i));
    for(int i = 0; i < 4000; i++) { ks.insert(T((uint64_t)i << (sizeof(T) * 4))); ks.insert(T(i * 4096)); ks.insert(T(r.next())); }
    std::vector<T> copy(ks.begin(), ks.end()); Map<T, int> mp;
    for(size_t i = 0; i < copy.size(); i++) {
        T a = copy[i]; const T b = a; T c = (T)(volatile T&)copy[i];
        u64 h = hash(a);
        if(hash(b) != h || hash(c) != h || hash(T(a)) != h) mon::violation("hash.unequal", "%s: %lld hashes differently on repetition", name, (long long)a);
        if(hash_nonzero(a) == 0) mon::violation("hash.nonzero", "%s: hash_nonzero is zero", name);
        sp.add(h, std::to_string((long long)a)); mp.insert(T(a), int(i));
    }
    for(size_t i = 0; i < copy.size(); i++) { T k = copy[i]; if(!mp.contains(k) || mp.get(k) != (int)i) { mon::violation("hash.map-key", "%s: key %lld lost in a map", name, (long long)k); break; } }
    sp.done();
}
template<typename F, typename U> static void floats(const char* name, mon::Rng& r) {
    Spread sp(name); std::set<U> bits; auto add = [&](F f) { U u; memcpy(&u, &f, sizeof f); if(f == f && f != 0) bits.insert(u); };
    for(int i = -2000; i < 2000; i++) { add((F)i); add((F)i / 7); add(std::ldexp((F)1, i % 120)); add(std::numeric_limits<F>::denorm_min() * (F)i); }
    for(int i = 0; i < 8000; i++) { U u = (U)r.next(); F f; memcpy(&f, &u, sizeof f); add(f); }
    add(std::numeric_limits<F>::infinity()); add(-std::numeric_limits<F>::infinity());
    Map<F, int> mp; int n = 0; std::vector<F> v;
    for(U u : bits) { F f; memcpy(&f, &u, sizeof f); F g = f; if(hash(f) != hash(g) || hash((F)(f * 1)) != hash(f)) mon::violation("hash.unequal", "%s: %g", name, (double)f); sp.add(hash(f), std::to_string((uint64_t)u)); mp.insert(F(f), n++); v.push_back(f); }
    for(int i = 0; i < n; i++) if(!mp.contains(v[(size_t)i]) || mp.get(v[(size_t)i]) != i) { mon::violation("hash.map-key", "%s: key %g lost", name, (double)v[(size_t)i]); break; }
    F z = 0, nz = -z; volatile F vz = -1; nz = (F)(vz * 0);
    MON_CHECK(z == nz && std::signbit(nz), "harness", "no negative zero");
    MON_CHECK(hash(z) == hash(nz), "hash.unequal", "%s: 0.0 and -0.0 compare equal but hash differently", name);
    Map<F, int> zm; zm.insert(F(0), 5); MON_CHECK(zm.contains(nz), "hash.map-key", "%s: -0.0 does not find 0.0", name);
    zm.insert(F(nz), 6); MON_CHECK(zm.length() == 1, "hash.map-key", "%s: 0.0 and -0.0 are two keys", name);
    mon::eval(4); sp.done();
}
static void strings(mon::Rng& r) {
    std::set<std::string> ks; ks.insert("");
    for(int i = 0; i < 3000; i++) { ks.insert("key" + std::to_string(i)); ks.insert(std::to_string(i) + "/suffix"); ks.insert(std::string((size_t)(i % 300), 'a')); ks.insert(std::string((size_t)(i % 300), '\0')); }
    for(int a = 0; a < 64; a++) for(int b = 0; b < 64; b++) { ks.insert(std::string{(char)(a * 4), (char)(b * 4)}); ks.insert(std::string{'x', (char)(a * 4), 'y', (char)(b * 4)}); }
    for(int i = 0; i < 6000; i++) { std::string s; size_t n = r(40); for(size_t j = 0; j < n; j++) s += (char)r(r(2) ? 256 : 4); ks.insert(s); }
    std::string base(200, 'q'); for(size_t i = 0; i < 200; i++) for(int b = 0; b < 8; b++) { auto t = base; t[i] = (char)(t[i] ^ (1 << b)); ks.insert(t); }
    for(int i = 0; i < 2000; i++) { std::string s; for(int j = 0; j < 8; j++) s += (char)('a' + r(3)); std::sort(s.begin(), s.end()); do ks.insert(s); while(std::next_permutation(s.begin(), s.end()) && ks.size() < 60000 && r(60)); }
    for(size_t len : {size_t(255), size_t(257), size_t(1025), size_t(4097), size_t(65535), size_t(65537), size_t(70000) + r(9000)}) { // long ones that differ in one place
        std::string s; for(size_t j = 0; j < len; j++) s += (char)r(256);
        ks.insert(s);
        for(int j = 0; j < 6; j++) { auto t = s; size_t at = j == 0 ? len - 1 : j == 1 ? 0 : r(len); t[at] = (char)(t[at] ^ (1 << r(8))); ks.insert(t); }
    }
    Spread sp("strings"); Map<String<>, int> mp; int n = 0; std::vector<std::string> v;
    for(auto& k : ks) {
        mon::ctx("string %s", hex(k).substr(0, 200).c_str());
        // same bytes at different alignments, with different neighbours, capacities and allocators
        std::string p1 = "abc" + k + "tail", p2 = "z" + k + std::string(1, '\0');
        String_View a = sv(k), b{(const u8*)p1.data() + 3, k.size()}, c{(const u8*)p2.data() + 1, k.size()};
        String<> s = a.string(); String<Mhidden> s2 = b.string<Mhidden>(); String<> s3{k.size() + 17}; s3.set_length(k.size()); for(size_t i = 0; i < k.size(); i++) s3[i] = (u8)k[i];
        u64 h = hash(a);
        if(hash(b) != h || hash(c) != h || hash(s) != h || hash(s2) != h || hash(s3) != h || hash(s.view()) != h || hash(s.clone()) != h) mon::violation("hash.unequal", "equal strings hash differently: %s", hex(k).substr(0, 100).c_str());
        sp.add(h, hex(k)); mp.insert(move(s), int(n++)); v.push_back(k);
    }
    for(int i = 0; i < n; i++) { String_View w = sv(v[(size_t)i]); String<> o = w.string(); if(!mp.contains(w) || !mp.contains(o) || mp.get(w) != i || mp.get(o) != i) { mon::violation("hash.map-key", "string key %s not found by an equal value", hex(v[(size_t)i]).substr(0, 100).c_str()); break; } }
    MON_CHECK(mp.length() == ks.size(), "hash.map-key", "map has %llu of %zu string keys", (unsigned long long)mp.length(), ks.size());
    sp.done();
}
template<typename T, u64 N> static void vects(const char* name) {
    using V = Math::Vect<T, N>; Spread sp(name); Map<V, int> mp; int n = 0; std::vector<V> vs; std::set<std::vector<long>> seen;
    for(int a = -8; a < 9; a++) for(int b = -8; b < 9; b++) for(int c = (N > 2 ? -4 : 0); c < (N > 2 ? 5 : 1); c++) for(int d = (N > 3 ? -2 : 0); d < (N > 3 ? 3 : 1); d++) {
        V v; v[0] = (T)(unsigned)(a + 8); v[1] = (T)(unsigned)(b + 8); std::vector<long> id{a, b}; if constexpr(N > 2) { v[2] = (T)(unsigned)(c + 8); id.push_back(c); } if constexpr(N > 3) { v[3] = (T)(unsigned)(d + 8); id.push_back(d); }
        V w; for(u64 i = 0; i < N; i++) w[i] = v[i];
        if(hash(v) != hash(w)) mon::violation("hash.unequal", "%s: equal vectors hash differently", name);
        std::string what; for(long x : id) what += std::to_string(x) + ","; sp.add(hash(v), what); mp.insert(V(v), int(n++)); vs.push_back(v);
    }
    for(int i = 0; i < n; i++) if(!mp.contains(vs[(size_t)i]) || mp.get(vs[(size_t)i]) != i) { mon::violation("hash.map-key", "%s: vector key lost", name); break; }
    if constexpr(std::is_floating_point_v<T>) for(u64 i = 0; i < N; i++) for(u64 m = 0; m < (1u << N); m++) { V v, w; for(u64 j = 0; j < N; j++) { v[j] = j == i ? T(3) : T(0); w[j] = j == i ? T(3) : (m >> j & 1) ? -T(0) : T(0); } if(v == w && hash(v) != hash(w)) mon::violation("hash.unequal", "%s: vectors differing in zero signs are equal but hash differently", name); mon::eval(); }
    sp.done();
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C05", "pairwise different integers, floats, pointers, strings, vectors and literals, structured and random; distinct by hash value");
    mon::Rng r(mon::S().seed);
    uint64_t rounds = mon::n(2, 25);
    if(mon::want("ints")) for(uint64_t i = 0; i < rounds; i++) { ints<u8>("u8", r); ints<u16>("u16", r); ints<u32>("u32", r); ints<u64>("u64", r); ints<i8>("i8", r); ints<i16>("i16", r); ints<i32>("i32", r); ints<i64>("i64", r); }
    if(mon::want("chars")) { Spread sp("char"); for(int i = 0; i < 256; i++) { char c = (char)i; sp.add(hash(c), std::to_string(i)); MON_CHECK(hash(c) == hash((char)(volatile char&)c), "hash.unequal", "char"); } }
    if(mon::want("floats")) for(uint64_t i = 0; i < rounds; i++) { floats<f32, uint32_t>("f32", r); floats<f64, uint64_t>("f64", r); }
    if(mon::want("pointers")) { Spread sp("pointers"); std::vector<int> arr(20000); Map<int*, int> mp; for(size_t i = 0; i < arr.size(); i++) { int* p = &arr[i]; const int* q = p; sp.add(hash(p), std::to_string(i)); if(i < 4000) for(int b = 1; b < 4; b++) sp.add(hash((char*)p + b), mon::fmt("%zu+%d", i, b)); if(hash(p) != hash(&arr[0] + i) || hash(p) != hash((void*)q)) mon::violation("hash.unequal", "pointer"); mp.insert((int*)p, int(i)); }
        for(size_t i = 0; i < arr.size(); i++) if(!mp.contains(&arr[i])) { mon::violation("hash.map-key", "pointer key lost"); break; } sp.done(); }
    if(mon::want("strings")) for(uint64_t i = 0; i < rounds; i++) strings(r);
    if(mon::want("vects")) { vects<f32, 2>("Vec2"); vects<f32, 3>("Vec3"); vects<f32, 4>("Vec4"); vects<i32, 2>("Vec2i"); vects<i32, 3>("Vec3i"); vects<i32, 4>("Vec4i"); vects<u32, 2>("Vec2u"); vects<u32, 3>("Vec3u"); vects<u32, 4>("Vec4u"); }
    if(mon::want("locations")) { // equal locations in different storage; different function, file or line
        Spread sp("locations"); Map<Log::Location, int> mp; int n = 0;
        struct L { std::string f, p; u64 line; };
        std::vector<L> ls;
        for(int a = 0; a < 12; a++) for(int b = 0; b < 12; b++) for(int c = 0; c < 60; c++) ls.push_back({a ? "function" + std::to_string(a) : "", b ? "dir/file" + std::to_string(b) + ".cpp" : "", c < 50 ? (u64)c : 1ull << c});
        for(auto& l : ls) {
            std::string f2 = "  " + l.f, p2 = l.p + "x";
            Log::Location x{sv(l.f), sv(l.p), l.line}, y{String_View{(const u8*)f2.data() + 2, l.f.size()}, String_View{(const u8*)p2.data(), l.p.size()}, l.line};
            if(!(x == y) || hash(x) != hash(y)) mon::violation("hash.unequal", "location (%s, %s, %llu): equal ones are not interchangeable", l.f.c_str(), l.p.c_str(), (unsigned long long)l.line);
            sp.add(hash(x), l.f + "@" + l.p + ":" + std::to_string(l.line));
            mp.insert(Log::Location{x}, int(n++));
        }
        MON_CHECK(mp.length() == ls.size(), "hash.map-key", "map has %llu of %zu locations", (unsigned long long)mp.length(), ls.size());
        for(int i = 0; i < n; i++) { L l = ls[(size_t)i]; Log::Location x{sv(l.f), sv(l.p), l.line}; if(!mp.contains(x) || mp.get(x) != i) { mon::violation("hash.map-key", "location key lost"); break; } }
        sp.done();
    }
    if(mon::want("many")) { Spread sp("multi-value"); for(int i = 0; i < 200; i++) for(int j = i; j < 200; j++) { u64 h = hash(i, j); sp.add(h, mon::fmt("%d,%d", i, j)); if(h != hash(int(i), (int)(volatile int&)j)) mon::violation("hash.unequal", "hash(i,j) not repeatable"); } sp.done();
        Spread sl("literals");
        sl.add(hash_literal("a"), "a"); sl.add(hash_literal("b"), "b"); sl.add(hash_literal("ab"), "ab"); sl.add(hash_literal("ba"), "ba"); sl.add(hash_literal("abc"), "abc"); sl.add(hash_literal("bac"), "bac"); sl.add(hash_literal("aab"), "aab"); sl.add(hash_literal("aba"), "aba");
        sl.add(hash_literal("file.cpp", 1), "f1"); sl.add(hash_literal("file.cpp", 2), "f2"); sl.add(hash_literal("file.cpp", 100000), "f100000"); sl.add(hash_literal("other.cpp", 1), "o1"); sl.add(hash_literal("other.cpp", 2), "o2");
        MON_CHECK(hash_literal("") != 0 && hash_literal("file.cpp", 1) == hash_literal("file.cpp", 1), "hash.unequal", "hash_literal");
        constexpr u64 h5 = hash(5); volatile int five = 5; MON_CHECK(h5 == hash((int)five), "hash.unequal", "constant evaluation and run time disagree");
    }
    return mon::finish();
}
