// C28: random streams. Membership of every draw, reach and frequency with wide statistical limits (beyond 7 sigma),
// determinism of mixed call histories, permutations with tracked elements.
#include "mon.h"
#include <limits>
#include <numeric>
#include <rpp/base.h>
#include <rpp/box.h>
#include <rpp/rng.h>
using namespace rpp;
using mon::Rng;

// k hits among n trials of probability p: false when beyond 7 standard deviations
static bool plausible(uint64_t k, uint64_t n, double p) { return std::fabs((double)k - (double)n * p) <= 7 * std::sqrt((double)n * p * (1 - p)) + 3; }

template<typename I> static std::string s(I v) { if constexpr((I)-1 < (I)0) return std::to_string((long long)v); else return std::to_string((unsigned long long)v); }
template<typename I> static void ranges(Rng& r, const char* t, uint64_t cases) {
    using L = std::numeric_limits<I>;
    for(uint64_t c = 0; c < cases; c++) {
        I a, b;
        switch(r(8)) {
        case 0: a = L::min(); b = L::max(); break;
        case 1: a = (I)(L::min() + (I)r(3)); b = (I)(a + 1 + (I)r(40)); break;
        case 2: b = (I)(L::max() - (I)r(3)); a = (I)(b - 1 - (I)r(40)); break;
        case 3: a = L::min(); b = (I)(L::min() + 1 + (I)r(100)); break;
        case 4: a = (I)r(20); b = (I)(a + 1 + (I)r(60)); break;
        case 5: if(!L::is_signed) { a = 0; b = (I)(1 + r(120)); } else { a = (I)-(int)(1 + r(60)); b = (I)r(60); } break;
        case 6: if(!L::is_signed) { a = 1; b = L::max(); } else { a = (I)-(int)(1 + r(100)); b = (I)(a + 1 + (I)r(20)); if(b > 0) b = 0; if(b <= a) b = (I)(a + 1); } break;
        default: a = (I)r.next(); b = (I)r.next(); if(a > b) std::swap(a, b); if(a == b) { if(b == L::max()) a--; else b++; }
        }
        u64 seed = r.chance(30) ? r(50) : r.next();
        mon::ctx("range<%s>(%s, %s) seed %llu", t, s(a).c_str(), s(b).c_str(), (unsigned long long)seed);
        RNG::Stream q(seed);
        __int128 span = (__int128)b - a;
        if(span <= 300) {
            std::vector<uint64_t> hits((size_t)span);
            uint64_t n = 60 * (uint64_t)span + 200;
            bool bad = false;
            for(uint64_t i = 0; i < n; i++) {
                I v = q.range<I>(a, b);
                if(v < a || v >= b) { mon::violation("rng.range", "range<%s>(%s, %s) returned %s", t, s(a).c_str(), s(b).c_str(), s(v).c_str()); bad = true; break; }
                hits[(size_t)((__int128)v - a)]++;
            }
            for(size_t i = 0; i < hits.size() && !bad; i++)
                if(!hits[i] || !plausible(hits[i], n, 1.0 / (double)span)) { mon::violation("rng.range-spread", "range<%s>(%s, %s) hit the value at offset %zu %llu times in %llu draws", t, s(a).c_str(), s(b).c_str(), i, (unsigned long long)hits[i], (unsigned long long)n); break; }
            mon::eval(n);
        } else {
            uint64_t n = 2000, hit[8] = {};
            I lo = L::max(), hi = L::min();
            bool bad = false;
            for(uint64_t i = 0; i < n; i++) {
                I v = q.range<I>(a, b);
                if(v < a || v >= b) { mon::violation("rng.range", "range<%s>(%s, %s) returned %s", t, s(a).c_str(), s(b).c_str(), s(v).c_str()); bad = true; break; }
                hit[(int)(((__int128)v - a) * 8 / span)]++;
                lo = std::min(lo, v);
                hi = std::max(hi, v);
            }
            // a reduction modulo a large span favours the lower part by at most a factor of two
            for(int i = 0; i < 8 && !bad; i++) if(hit[i] < 70) { mon::violation("rng.range-spread", "range<%s>(%s, %s): only %llu of 2000 draws in eighth %d of the range", t, s(a).c_str(), s(b).c_str(), (unsigned long long)hit[i], i); break; }
            mon::eval(n);
        }
        mon::distinct(mon::mix(mon::hstr(t), mon::mix((uint64_t)a, (uint64_t)b)));
    }
    // integer(): every bit takes both values
    RNG::Stream q(r.next());
    uint64_t ones[64] = {}, n = 4000;
    for(uint64_t i = 0; i < n; i++) { I v = q.integer<I>(); for(size_t b = 0; b < sizeof(I) * 8; b++) ones[b] += (uint64_t)v >> b & 1; }
    for(size_t b = 0; b < sizeof(I) * 8; b++) MON_CHECK(plausible(ones[b], n, 0.5), "rng.integer", "integer<%s>: bit %zu was set in %llu of %llu draws", t, b, (unsigned long long)ones[b], (unsigned long long)n);
}
// Seeds whose first draw is an extreme value: the inverse of the stream's mixing function. When the function is another
// one the inverse does not apply and nothing is checked here.
static u64 unshift(u64 v, int s) { u64 x = v; for(int i = 0; i < 64 / s + 1; i++) x = v ^ (x >> s); return x; }
static u64 inverse(u64 odd) { u64 x = odd; for(int i = 0; i < 6; i++) x *= 2 - odd * x; return x; }
static bool seed_for(u64 draw, u64& seed) {
    u64 at = draw;
    at = unshift(at, 17); at *= inverse(0xD8081C73F0FAA127ul);
    at = unshift(at, 15); at -= 0xDB8BDB77D7DF9811ul;
    at = unshift(at, 13); at *= inverse(0xEC705118C5FBDA13ul);
    at = unshift(at, 11); at -= 0x9D9FDC30FD876B1Dul;
    at = unshift(at, 9); at *= inverse(0xA278032FB08BA40Dul);
    seed = at;
    return RNG::Stream(seed)() == draw;
}
template<typename I> static void extreme_ranges(u64 seed, Rng& r) {
    using L = std::numeric_limits<I>;
    for(int i = 0; i < 12; i++) {
        I a = i == 0 ? L::min() : i == 1 ? 0 : (I)r.next(), b = i == 0 ? L::max() : i == 1 ? 1 : (I)r.next();
        if(a > b) std::swap(a, b);
        if(a == b) continue;
        RNG::Stream q(seed);
        I v = q.range<I>(a, b);
        if(v < a || v >= b) mon::violation("rng.range", "range<%zu bytes>(%lld, %lld) returned %lld for seed %llu", sizeof(I), (long long)a, (long long)b, (long long)v, (unsigned long long)seed);
    }
}
static void extremes(Rng& r) {
    std::vector<u64> draws;
    for(int k = 0; k < 64; k++) {
        draws.push_back(~0ull << k); draws.push_back(~0ull >> k); draws.push_back(1ull << k); draws.push_back((1ull << k) - 1);
        draws.push_back(~(1ull << k)); draws.push_back((~0ull << k) ^ (1ull << 63)); draws.push_back((1ull << k) | (1ull << 63));
    }
    for(u64 i = 0; i < 500; i++) { draws.push_back(i); draws.push_back(~0ull - i); draws.push_back((1ull << 63) + i); draws.push_back((1ull << 63) - i); draws.push_back(~0ull - (r.next() >> (20 + i % 40))); }
    for(u64 d : draws) {
        u64 seed;
        if(!seed_for(d, seed)) continue;
        mon::ctx("seed %llu, whose first draw is %llx", (unsigned long long)seed, (unsigned long long)d);
        { RNG::Stream q(seed); f32 u = q.unit<f32>(); if(!(u >= 0 && u < 1)) mon::violation("rng.unit", "unit<f32>() returned %.17g", (double)u); }
        { RNG::Stream q(seed); f64 u = q.unit<f64>(); if(!(u >= 0 && u < 1)) mon::violation("rng.unit", "unit<f64>() returned %.17g", u); }
        { RNG::Stream q(seed); MON_CHECK(!q.coin_flip<f32>(0.0f), "rng.coin", "coin_flip<f32>(0) was true"); }
        { RNG::Stream q(seed); MON_CHECK(q.coin_flip<f32>(1.0f), "rng.coin", "coin_flip<f32>(1) was false"); }
        { RNG::Stream q(seed); MON_CHECK(!q.coin_flip<f64>(0.0), "rng.coin", "coin_flip<f64>(0) was true"); }
        { RNG::Stream q(seed); MON_CHECK(q.coin_flip<f64>(1.0), "rng.coin", "coin_flip<f64>(1) was false"); }
        extreme_ranges<i8>(seed, r); extreme_ranges<u8>(seed, r); extreme_ranges<i16>(seed, r); extreme_ranges<u16>(seed, r);
        extreme_ranges<i32>(seed, r); extreme_ranges<u32>(seed, r); extreme_ranges<i64>(seed, r); extreme_ranges<u64>(seed, r);
        for(u64 n : {2, 3, 7, 10}) { // a shuffle whose first draw is extreme
            RNG::Stream q(seed);
            Vec<u64> v;
            for(u64 i = 0; i < n; i++) v.push(i);
            q.shuffle(v);
            u64 got = 0;
            for(u64 x : v) got |= 1ull << x;
            MON_CHECK(v.length() == n && got == (1ull << n) - 1, "rng.permutation", "the shuffle lost an element");
        }
        mon::count("extreme_draws");
        mon::eval(100);
    }
    // many draws: the rarest mantissas of unit<f32>
    uint64_t n = mon::n(1ull << 28, 1ull << 32);
    RNG::Stream q(r.next());
    mon::ctx("a long run of unit<f32>");
    f32 most = 0, least = 1;
    for(uint64_t i = 0; i < n; i++) { f32 u = q.unit<f32>(); if(u > most) most = u; if(u < least) least = u; }
    MON_CHECK(most < 1 && least >= 0, "rng.unit", "unit<f32>() ranged over [%.17g, %.17g] in %llu draws", (double)least, (double)most, (unsigned long long)n);
    mon::eval(n);
}
template<typename F> static void units(Rng& r, const char* t, uint64_t cases) {
    for(uint64_t c = 0; c < cases; c++) {
        u64 seed = c < 40 ? c : r.next();
        mon::ctx("unit<%s> seed %llu", t, (unsigned long long)seed);
        RNG::Stream q(seed);
        uint64_t n = 4000, hit[16] = {};
        double sum = 0;
        std::set<F> vals;
        bool bad = false;
        for(uint64_t i = 0; i < n; i++) {
            F u = q.unit<F>();
            if(!(u >= 0 && u < 1)) { mon::violation("rng.unit", "unit<%s>() returned %.17g", t, (double)u); bad = true; break; }
            hit[(int)(u * 16)]++;
            sum += (double)u;
            vals.insert(u);
        }
        for(int i = 0; i < 16 && !bad; i++) if(!plausible(hit[i], n, 1.0 / 16)) { mon::violation("rng.unit-spread", "unit<%s>(): %llu of %llu draws in sixteenth %d", t, (unsigned long long)hit[i], (unsigned long long)n, i); bad = true; }
        if(!bad) MON_CHECK(std::fabs(sum / (double)n - 0.5) < 7 * 0.2887 / std::sqrt((double)n), "rng.unit-spread", "unit<%s>(): mean %g", t, sum / (double)n);
        if(!bad) MON_CHECK(vals.size() > n - 40, "rng.unit-spread", "unit<%s>(): only %zu different values in %llu draws", t, vals.size(), (unsigned long long)n);
        F p = c % 5 == 0 ? (F)0 : c % 5 == 1 ? (F)1 : (F)r.unit();
        uint64_t heads = 0;
        for(uint64_t i = 0; i < n; i++) heads += q.coin_flip<F>(p);
        MON_CHECK(p == 0 ? heads == 0 : p == 1 ? heads == n : plausible(heads, n, (double)p), "rng.coin", "coin_flip<%s>(%g) was true %llu times in %llu", t, (double)p, (unsigned long long)heads, (unsigned long long)n);
        mon::eval(2 * n);
        mon::distinct(mon::mix(seed, mon::hstr(t)));
    }
}
// ---- the same seed and the same calls give the same values
static std::vector<uint64_t> history(RNG::Stream& q, Rng calls, int n) {
    std::vector<uint64_t> out;
    for(int i = 0; i < n; i++) {
        switch(calls(9)) {
        case 0: out.push_back(q()); break;
        case 1: { f32 f = q.unit<f32>(); uint32_t b; memcpy(&b, &f, 4); out.push_back(b); break; }
        case 2: { f64 f = q.unit<f64>(); uint64_t b; memcpy(&b, &f, 8); out.push_back(b); break; }
        case 3: out.push_back((uint64_t)q.range<i32>((i32)-(int)calls(1000), (i32)(1 + calls(1000)))); break;
        case 4: out.push_back(q.range<u64>(0, 1 + calls.next() / 2)); break;
        case 5: out.push_back((uint64_t)q.range<i64>(-1 - (i64)calls(1ull << 60), 1 + (i64)calls(1ull << 60))); break;
        case 6: out.push_back((uint64_t)q.integer<i16>()); break;
        case 7: out.push_back(q.coin_flip<f32>(0.5f)); break;
        default: { Vec<u32> v; u64 k = calls(9); for(u64 j = 0; j < k; j++) v.push((u32)j); q.shuffle(v); for(u32 x : v) out.push_back(x); }
        }
    }
    return out;
}
static void determinism(Rng& r, uint64_t cases) {
    for(uint64_t c = 0; c < cases; c++) {
        u64 seed = c < 300 ? c : c < 364 ? 1ull << (c - 300) : r.next();
        mon::ctx("determinism seed %llu", (unsigned long long)seed);
        Rng calls(r.next());
        RNG::Stream a(seed), b(r.next()), e(seed);
        auto x = history(a, calls, 40), y = history(e, calls, 40);
        MON_CHECK(x == y, "rng.deterministic", "two streams with seed %llu differ", (unsigned long long)seed);
        (void)history(b, calls, 5);
        b.seed(seed);
        MON_CHECK(history(b, calls, 40) == x, "rng.deterministic", "a stream reseeded with %llu differs from a new one", (unsigned long long)seed);
        RNG::Stream copy = a;
        Rng more(r.next());
        MON_CHECK(history(a, more, 20) == history(copy, more, 20), "rng.deterministic", "a copied stream continues differently");
        RNG::Stream f(seed), g(seed + 1);
        std::set<u64> seen;
        int equal = 0;
        for(int i = 0; i < 500; i++) { u64 v = f(); seen.insert(v); equal += v == g(); }
        MON_CHECK(seen.size() == 500, "rng.repeats", "the stream of seed %llu repeats: %zu different values in 500", (unsigned long long)seed, seen.size());
        MON_CHECK(equal == 0, "rng.seeds", "the streams of seeds %llu and %llu share values", (unsigned long long)seed, (unsigned long long)(seed + 1));
        mon::eval(4);
    }
    RNG::Stream d; // seeded from the clock: still a stream
    std::set<u64> seen;
    for(int i = 0; i < 500; i++) seen.insert(d());
    MON_CHECK(seen.size() == 500, "rng.repeats", "a default stream repeats");
    d.seed();
    for(int i = 0; i < 1000; i++) { i32 v = d.range<i32>(-5, 7); MON_CHECK(v >= -5 && v < 7, "rng.range", "default stream: %d", v); }
}
// ---- shuffle
template<typename T> static void shuffles(Rng& r, uint64_t cases) {
    for(uint64_t c = 0; c < cases; c++) {
        {
            RNG::Stream q(r.next());
            Vec<T> v;
            int n = (int)(r.chance(20) ? r(3) : r.chance(70) ? r(20) : r(200));
            std::vector<int64_t> want;
            for(int i = 0; i < n; i++) { int64_t x = 1 + (int64_t)r(r.chance(30) ? 5 : 200); want.push_back(x); v.push(El<T>::make(x)); }
            mon::ctx("shuffle of %d %s", n, El<T>::name);
            u64 cap = v.capacity();
            q.shuffle(v);
            std::vector<int64_t> got;
            for(auto& e : v) got.push_back(El<T>::get(e));
            MON_CHECK((int)v.length() == n && v.capacity() == cap, "rng.shuffle", "shuffle changed the length from %d to %d", n, (int)v.length());
            std::sort(want.begin(), want.end());
            std::sort(got.begin(), got.end());
            MON_CHECK(got == want, "rng.shuffle", "shuffling %d elements is no permutation of them", n);
            mon::eval();
        }
        mon::reg().case_end("shuffle");
    }
}
static void arrangements(Rng& r, uint64_t rounds) {
    for(uint64_t k = 0; k < rounds; k++)
        for(int n = 1; n <= 6; n++) {
            uint64_t fact = 1;
            for(int i = 2; i <= n; i++) fact *= (uint64_t)i;
            uint64_t draws = fact * 60;
            std::map<std::vector<u32>, uint64_t> seen;
            std::vector<std::vector<uint64_t>> at((size_t)n, std::vector<uint64_t>((size_t)n));
            RNG::Stream q(r.next());
            mon::ctx("arrangements of %d", n);
            for(uint64_t d = 0; d < draws; d++) {
                Vec<u32> v;
                for(u32 i = 0; i < (u32)n; i++) v.push(u32{i});
                q.shuffle(v);
                std::vector<u32> o;
                for(u32 x : v) { at[o.size()][x]++; o.push_back(x); }
                seen[o]++;
            }
            MON_CHECK(seen.size() == fact, "rng.arrangements", "%llu shuffles of %d elements gave %zu of %llu arrangements", (unsigned long long)draws, n, seen.size(), (unsigned long long)fact);
            for(auto& [o, m] : seen) if(!plausible(m, draws, 1.0 / (double)fact)) { mon::violation("rng.arrangements", "an arrangement of %d elements came up %llu times in %llu", n, (unsigned long long)m, (unsigned long long)draws); break; }
            mon::eval(draws);
        }
    // larger vectors: every element can land everywhere
    const int n = 30;
    std::vector<uint64_t> at((size_t)(n * n));
    RNG::Stream q(r.next());
    for(int d = 0; d < 6000; d++) {
        Vec<u32> v;
        for(u32 i = 0; i < (u32)n; i++) v.push(u32{i});
        q.shuffle(v);
        for(u64 i = 0; i < (u64)n; i++) at[i * n + v[i]]++;
    }
    for(int i = 0; i < n * n; i++) MON_CHECK(plausible(at[(size_t)i], 6000, 1.0 / n), "rng.arrangements", "element %d landed at place %d %llu times in 6000", i % n, i / n, (unsigned long long)at[(size_t)i]);
    mon::eval(6000);
}
static void owners(Rng& r, uint64_t cases) {
    for(uint64_t c = 0; c < cases; c++) {
        RNG::Stream q(r.next());
        mon::ctx("shuffle of owners");
        Vec<Box<u64>> v;
        Vec<String<>> w;
        u64 n = r(30);
        for(u64 i = 0; i < n; i++) { v.push(Box<u64>{u64{i}}); w.push(format<Mdefault>("string number %"_v, i)); }
        q.shuffle(v);
        q.shuffle(w);
        std::set<u64> a;
        std::set<std::string> b;
        for(auto& x : v) if(x.ok()) a.insert(*x);
        for(auto& x : w) b.insert(std::string((const char*)x.view().data(), x.view().length()));
        MON_CHECK(a.size() == n && b.size() == n && (n == 0 || *a.rbegin() == n - 1), "rng.shuffle", "shuffling %d owners left %zu boxes and %zu strings", (int)n, a.size(), b.size());
        mon::eval(2);
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C28", "hash of (type, range), (seed, type)");
    Rng r(mon::S().seed);
    uint64_t n = mon::n(400, 12000);
    if(mon::want("ranges")) { ranges<u8>(r, "u8", n); ranges<i8>(r, "i8", n); ranges<u16>(r, "u16", n); ranges<i16>(r, "i16", n); ranges<u32>(r, "u32", n); ranges<i32>(r, "i32", n); ranges<u64>(r, "u64", n); ranges<i64>(r, "i64", n); }
    if(mon::want("extremes")) extremes(r);
    if(mon::want("units")) { units<f32>(r, "f32", n); units<f64>(r, "f64", n); }
    if(mon::want("determinism")) determinism(r, 5 * n);
    if(mon::want("shuffles")) { shuffles<int>(r, 10 * n); shuffles<Pod>(r, 5 * n); shuffles<Trk>(r, 10 * n); shuffles<Cpy>(r, 5 * n); owners(r, 3 * n); }
    if(mon::want("arrangements")) arrangements(r, 1 + n / 400);
    Profile::finalize();
    return mon::finish();
}
