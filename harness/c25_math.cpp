// C25: scalar math. Every helper is compared with an independent definition (128-bit integers, wide floats, the C
// library) on corner values, all small values and random values of every magnitude, under UBSan.
#include "mon.h"
#include <limits>
#include <rpp/base.h>
using namespace rpp;
using mon::Rng;
typedef __int128 i128;
typedef long double ld;

static std::string show(i128 v) { std::string s; bool neg = v < 0; if(neg) v = -v; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while(v); return neg ? "-" + s : s; }
// Values of every magnitude, corners first.
template<typename I> static I pick(Rng& r) {
    using L = std::numeric_limits<I>;
    switch(r(8)) {
    case 0: return (I)(L::min() + (I)r(3));
    case 1: return (I)(L::max() - (I)r(3));
    case 2: return (I)r(5);
    case 3: return L::is_signed ? (I)-(i128)r(5) : (I)r(5);
    case 4: { i128 p = (i128)1 << r((uint64_t)L::digits); return (I)(p - 1 + (i128)r(3) > (i128)L::max() ? p : p - 1 + (i128)r(3)); }
    default: { uint64_t x = r.next() >> r(64); I v = (I)x; return r.chance(50) && L::is_signed && v != L::min() ? (I)-v : v; }
    }
}
template<typename F> static F fpick(Rng& r, bool special = false) {
    using L = std::numeric_limits<F>;
    F s = r.chance(50) ? (F)-1 : (F)1;
    switch(r(special ? 12 : 10)) {
    case 0: return s * (F)r(4);
    case 1: return s * (F)r(1000000) / 2;
    case 2: return s * ((F)r(100) + (F)0.5);
    case 3: return s * std::nextafter((F)r(1 << 20), (F)(r.chance(50) ? -1 : 1e9));
    case 4: return s * (F)r.unit();
    case 5: return s * (F)std::ldexp((F)1 + (F)r.unit(), (int)r.range(-30, 30));
    case 6: return s * (F)std::ldexp((F)1 + (F)r.unit(), (int)r.range(L::min_exponent - 10, L::max_exponent - 2));
    case 7: { F all[] = {0, L::min(), L::denorm_min(), L::max(), L::epsilon(), (F)8388607.5, (F)8388608, (F)16777216, (F)9007199254740992.0, (F)9223372036854775808.0, (F)1e19}; return s * all[r(11)]; }
    case 8: return s * (F)r(100000) / 1000;
    case 9: return (F)(r.unit() * 20 - 10);
    case 10: return s * L::infinity();
    default: return L::quiet_NaN();
    }
}
template<typename F> static bool close(F got, ld want, int ulps = 3) {
    F w = (F)want;
    if(std::isnan(want)) return std::isnan(got);
    if(got == w) return true;
    if(std::isinf(w) || std::isinf(got) || std::isnan(got)) return false;
    ld tol = (ld)ulps * std::max<ld>(std::fabs((ld)w) * std::numeric_limits<F>::epsilon(), std::numeric_limits<F>::denorm_min());
    return std::fabs((ld)got - want) <= tol;
}
template<typename F> static bool same(F a, F b) { return a == b || (std::isnan(a) && std::isnan(b)); }
#define LAW(cond, ...) do { mon::eval(); if(!(cond)) mon::violation(__VA_ARGS__); } while(0)

// ---- templates over every integer type
template<typename I> static void order(const char* t, I a, I b, I c) {
    I lo = b < a ? b : a, hi = a < b ? b : a;
    mon::ctx("%s order %s %s %s", t, show(a).c_str(), show(b).c_str(), show(c).c_str());
    LAW(Math::min(a, b) == lo && Math::max(a, b) == hi, "math.minmax", "%s min/max of %s and %s", t, show(a).c_str(), show(b).c_str());
    LAW(Math::min<I>({a, b, c}) == std::min({a, b, c}) && Math::max<I>({a, b, c}) == std::max({a, b, c}), "math.minmax-list", "%s min/max of a list of three", t);
    LAW(Math::min<I>({a}) == a && Math::max<I>({a}) == a, "math.minmax-list", "%s min/max of a list of one", t);
    LAW(Math::clamp(c, lo, hi) == (c < lo ? lo : c > hi ? hi : c), "math.clamp", "%s clamp(%s, %s, %s) = %s", t, show(c).c_str(), show(lo).c_str(), show(hi).c_str(), show(Math::clamp(c, lo, hi)).c_str());
}
template<typename I> static void ipow(const char* t, I b, I e) {
    if(e < 0) return;
    i128 w = 1;
    bool fits = true;
    if(b != 0 && b != 1 && b != (I)-1) {
        for(I k = 0; k < e && fits; k++) { fits = !__builtin_mul_overflow(w, (i128)b, &w) && w >= (i128)std::numeric_limits<I>::min() && w <= (i128)std::numeric_limits<I>::max(); }
    } else w = e == 0 || b == 1 ? 1 : b == 0 ? 0 : (e & 1) ? (i128)b : 1;
    if(std::numeric_limits<I>::is_signed == false && b == (I)-1 && e > 1) return; // the largest unsigned value
    if(!fits) return;
    mon::ctx("%s pow %s %s", t, show(b).c_str(), show(e).c_str());
    LAW(Math::pow<I>(b, e) == (I)w, "math.pow", "%s pow(%s, %s) = %s, expected %s", t, show(b).c_str(), show(e).c_str(), show(Math::pow<I>(b, e)).c_str(), show(w).c_str());
    mon::distinct(mon::mix(mon::hstr(t), mon::mix((uint64_t)b, (uint64_t)e)));
}
template<typename I> static void ints(Rng& r, const char* t, uint64_t cases) {
    LAW(Limits<I>::max() == std::numeric_limits<I>::max() && Limits<I>::min() == std::numeric_limits<I>::min(), "math.limits", "Limits<%s> are not its limits", t);
    for(uint64_t c = 0; c < cases; c++) {
        order<I>(t, pick<I>(r), pick<I>(r), pick<I>(r));
        ipow<I>(t, pick<I>(r), (I)r(70));
        ipow<I>(t, (I)r.range(-12, 12), (I)r(70));
    }
    for(int b = -30; b <= 30; b++)
        for(int e = 0; e <= 64; e++)
            if(b >= 0 || std::numeric_limits<I>::is_signed) ipow<I>(t, (I)b, (I)e);
    if constexpr(sizeof(I) == 1)
        for(int a = std::numeric_limits<I>::min(); a <= std::numeric_limits<I>::max(); a++)
            for(int b = std::numeric_limits<I>::min(); b <= std::numeric_limits<I>::max(); b++) { order<I>(t, (I)a, (I)b, pick<I>(r)); ipow<I>(t, (I)a, (I)b); }
}
// ---- bit tricks and alignment, u32 and u64
template<typename U> static void bits(const char* t, U x) {
    const int W = sizeof(U) * 8;
    mon::ctx("%s bits %s", t, show(x).c_str());
    int pop = 0, top = -1;
    for(int i = 0; i < W; i++) if(x >> i & 1) { pop++; top = i; }
    LAW(Math::popcount(x) == (U)pop, "math.popcount", "%s popcount(%s) = %s", t, show(x).c_str(), show(Math::popcount(x)).c_str());
    LAW(Math::ctlz(x) == (U)(W - 1 - top), "math.ctlz", "%s ctlz(%s) = %s, expected %d", t, show(x).c_str(), show(Math::ctlz(x)).c_str(), W - 1 - top);
    if(x) LAW(Math::log2(x) == (U)top, "math.log2", "%s log2(%s) = %s, expected %d", t, show(x).c_str(), show(Math::log2(x)).c_str(), top);
    LAW(Math::prev_pow2(x) == (x ? (U)1 << top : 0), "math.prev_pow2", "%s prev_pow2(%s) = %s", t, show(x).c_str(), show(Math::prev_pow2(x)).c_str());
    if(x && x <= (U)1 << (W - 1)) {
        U w = (U)1 << top;
        if(w < x) w <<= 1;
        LAW(Math::next_pow2(x) == w, "math.next_pow2", "%s next_pow2(%s) = %s, expected %s", t, show(x).c_str(), show(Math::next_pow2(x)).c_str(), show(w).c_str());
    }
    mon::distinct(mon::mix(mon::hstr(t), x));
}
template<typename U> static void alignment(const char* t, U x, U a) {
    if(!a) return;
    mon::ctx("%s align %s to %s", t, show(x).c_str(), show(a).c_str());
    i128 down = (i128)x / a * a, up = down == (i128)x ? down : down + a;
    LAW(Math::align_down(x, a) == (U)down, "math.align", "%s align_down(%s, %s) = %s, expected %s", t, show(x).c_str(), show(a).c_str(), show(Math::align_down(x, a)).c_str(), show(down).c_str());
    bool fits = up <= (i128)std::numeric_limits<U>::max();
    if(fits) LAW(Math::align(x, a) == (U)up, "math.align", "%s align(%s, %s) = %s, expected %s", t, show(x).c_str(), show(a).c_str(), show(Math::align(x, a)).c_str(), show(up).c_str());
    if((a & (a - 1)) == 0) {
        LAW(Math::align_down_pow2(x, a) == (U)down, "math.align", "%s align_down_pow2(%s, %s) = %s, expected %s", t, show(x).c_str(), show(a).c_str(), show(Math::align_down_pow2(x, a)).c_str(), show(down).c_str());
        if(fits) LAW(Math::align_pow2(x, a) == (U)up, "math.align", "%s align_pow2(%s, %s) = %s, expected %s", t, show(x).c_str(), show(a).c_str(), show(Math::align_pow2(x, a)).c_str(), show(up).c_str());
    }
}
template<typename U> static void unsigneds(Rng& r, const char* t, uint64_t cases) {
    for(U x = 0; x < 70000; x++) bits<U>(t, x);
    for(int i = 0; i < (int)sizeof(U) * 8; i++)
        for(int d = -2; d <= 2; d++) bits<U>(t, (U)((U)1 << i) + (U)d);
    for(U x = 0; x < 300; x++) for(U a = 1; a < 70; a++) alignment<U>(t, x, a);
    for(uint64_t c = 0; c < cases; c++) {
        bits<U>(t, pick<U>(r));
        alignment<U>(t, pick<U>(r), pick<U>(r));
        alignment<U>(t, pick<U>(r), (U)1 << r(sizeof(U) * 8));
        alignment<U>(t, pick<U>(r), (U)(1 + r(100)));
    }
}
static void sizes(Rng& r, uint64_t cases) {
    for(uint64_t c = 0; c < cases; c++) {
        u64 n = c < 100 ? c : r.next() >> r(64);
        mon::ctx("sizes %llu", (unsigned long long)n);
        if(n < 1ull << 54) LAW(Math::KB(n) == n << 10, "math.size", "KB(%llu)", (unsigned long long)n);
        if(n < 1ull << 44) LAW(Math::MB(n) == n << 20, "math.size", "MB(%llu) = %llu", (unsigned long long)n, (unsigned long long)Math::MB(n));
        if(n < 1ull << 34) LAW(Math::GB(n) == n << 30, "math.size", "GB(%llu) = %llu", (unsigned long long)n, (unsigned long long)Math::GB(n));
    }
    for(uint64_t c = 0; c < cases; c++) {
        i32 a = pick<i32>(r);
        i64 b = pick<i64>(r);
        if(a != std::numeric_limits<i32>::min()) LAW(Math::abs(a) == (a < 0 ? -a : a), "math.abs", "abs(%d)", a);
        if(b != std::numeric_limits<i64>::min()) LAW(Math::abs(b) == (b < 0 ? -b : b), "math.abs", "abs(%lld) = %lld", (long long)b, (long long)Math::abs(b));
    }
}
// ---- floats
template<typename F> static void floats(Rng& r, const char* t, uint64_t cases) {
    using L = std::numeric_limits<F>;
    LAW(Limits<F>::max() == L::max() && Limits<F>::min() == L::lowest() && Limits<F>::epsilon() == L::epsilon() && Limits<F>::smallest_norm() == L::min() && Limits<F>::smallest_denorm() == L::denorm_min(), "math.limits", "Limits<%s>", t);
    for(uint64_t c = 0; c < cases; c++) {
        F x = fpick<F>(r, true), y = fpick<F>(r, true);
        mon::ctx("%s floats %.17g %.17g", t, (double)x, (double)y);
#define ONE(f, ref) LAW(same<F>(Math::f(x), (F)(ref)), "math." #f, "%s " #f "(%.17g) = %.17g, expected %.17g", t, (double)x, (double)Math::f(x), (double)(ref))
        ONE(floor, std::floor(x));
        ONE(ceil, std::ceil(x));
        ONE(round, std::round(x));
        ONE(abs, std::fabs(x));
        ONE(sqrt, std::sqrt(x));
        if(!std::isnan(x)) ONE(sign, x > 0 ? 1 : x < 0 ? -1 : 0);
#define NEAR(f, ref) LAW(close<F>(Math::f(x), ref), "math." #f, "%s " #f "(%.17g) = %.17g, expected %.17Lg", t, (double)x, (double)Math::f(x), (ld)(ref))
        NEAR(cos, std::cos((ld)x));
        NEAR(sin, std::sin((ld)x));
        if(std::fabs(x) < (F)1e6) LAW(close<F>(Math::tan(x), std::tan((ld)x), 4), "math.tan", "%s tan(%.17g) = %.17g", t, (double)x, (double)Math::tan(x));
        NEAR(acos, std::acos((ld)x));
        NEAR(asin, std::asin((ld)x));
        NEAR(atan, std::atan((ld)x));
        NEAR(exp, std::exp((ld)x));
        LAW(close<F>(Math::atan2(y, x), std::atan2((ld)y, (ld)x)), "math.atan2", "%s atan2(%.17g, %.17g) = %.17g", t, (double)y, (double)x, (double)Math::atan2(y, x));
        LAW(close<F>(Math::hypot(x, y), std::hypot((ld)x, (ld)y)), "math.hypot", "%s hypot(%.17g, %.17g) = %.17g", t, (double)x, (double)y, (double)Math::hypot(x, y));
        LAW(close<F>(Math::pow(x, y), std::pow((double)x, (double)y)), "math.powf", "%s pow(%.17g, %.17g) = %.17g, expected %.17Lg", t, (double)x, (double)y, (double)Math::pow(x, y), (ld)std::pow((double)x, (double)y));
        F z = fpick<F>(r);
        if(!std::isnan(x) && !std::isnan(y)) {
            F lo = std::min(x, y), hi = std::max(x, y);
            LAW(Math::min(x, y) == lo && Math::max(x, y) == hi, "math.minmax", "%s min/max of %.17g and %.17g", t, (double)x, (double)y);
            LAW(Math::min<F>({x, y, z}) == std::min({x, y, z}), "math.minmax-list", "%s min of the list {%.17g, %.17g, %.17g} = %.17g", t, (double)x, (double)y, (double)z, (double)Math::min<F>({x, y, z}));
            LAW(Math::max<F>({x, y, z}) == std::max({x, y, z}), "math.minmax-list", "%s max of the list {%.17g, %.17g, %.17g} = %.17g", t, (double)x, (double)y, (double)z, (double)Math::max<F>({x, y, z}));
            LAW(Math::min<F>({x}) == x && Math::max<F>({x}) == x, "math.minmax-list", "%s min/max of the list {%.17g} = %.17g / %.17g", t, (double)x, (double)Math::min<F>({x}), (double)Math::max<F>({x}));
            LAW(Math::clamp(z, lo, hi) == (z < lo ? lo : z > hi ? hi : z), "math.clamp", "%s clamp(%.17g, %.17g, %.17g) = %.17g", t, (double)z, (double)lo, (double)hi, (double)Math::clamp(z, lo, hi));
        }
        if(std::fabs(z) < L::max() / 100) {
            const ld pi = 3.14159265358979323846264338327950288L;
            LAW(close<F>(Math::radians(z), (ld)z * pi / 180, 4), "math.radians", "%s radians(%.17g) = %.17g, expected %.17Lg", t, (double)z, (double)Math::radians(z), (ld)z * pi / 180);
            LAW(close<F>(Math::degrees(z), (ld)z * 180 / pi, 4), "math.degrees", "%s degrees(%.17g) = %.17g, expected %.17Lg", t, (double)z, (double)Math::degrees(z), (ld)z * 180 / pi);
        }
        F a = (F)(r.unit() * 2000 - 1000), b = (F)(r.unit() * 2000 - 1000), s = r.chance(30) ? (F)r(2) : (F)(r.unit() * 3 - 1);
        ld want = (ld)a + ((ld)b - (ld)a) * (ld)s;
        LAW(std::fabs((ld)Math::lerp(a, b, s) - want) <= 8000 * (ld)L::epsilon(), "math.lerp", "%s lerp(%.17g, %.17g, %.17g) = %.17g, expected %.17Lg", t, (double)a, (double)b, (double)s, (double)Math::lerp(a, b, s), want);
        LAW(Math::lerp(a, b, (F)0) == a, "math.lerp", "%s lerp(a, b, 0) is not a", t);
        mon::distinct(mon::mix(mon::hstr(t), std::hash<F>()(x)));
    }
}
static void f32_only(Rng& r, uint64_t cases) {
    for(uint64_t c = 0; c < cases; c++) {
        f32 x = fpick<f32>(r);
        mon::ctx("frac(%.9g)", (double)x);
        LAW(Math::frac(x) == x - std::trunc(x), "math.frac", "frac(%.9g) = %.9g, expected %.9g", (double)x, (double)Math::frac(x), (double)(x - std::trunc(x)));
        f32 e0 = (f32)(r.unit() * 20 - 10), e1 = e0 + (f32)(r.unit() * 10 + 0.01), v = r.chance(20) ? e0 : r.chance(20) ? e1 : (f32)(r.unit() * 40 - 20);
        mon::ctx("smoothstep(%.9g, %.9g, %.9g)", (double)e0, (double)e1, (double)v);
        double q = ((double)v - e0) / ((double)e1 - e0);
        q = q < 0 ? 0 : q > 1 ? 1 : q;
        double want = q * q * (3 - 2 * q), width = (double)e1 - e0;
        LAW(std::fabs(Math::smoothstep(e0, e1, v) - want) <= 1e-6 + 4e-6 / width, "math.smoothstep", "smoothstep(%.9g, %.9g, %.9g) = %.9g, expected %.9g", (double)e0, (double)e1, (double)v, (double)Math::smoothstep(e0, e1, v), want);
        f32 back = Math::smoothstep(e1, e0, v); // falling edge
        LAW(std::fabs(back - (1 - want)) <= 1e-6 + 4e-6 / width, "math.smoothstep", "smoothstep(%.9g, %.9g, %.9g) = %.9g, expected %.9g", (double)e1, (double)e0, (double)v, (double)back, 1 - want);
    }
    LAW(Math::PI32 == (f32)M_PI && Math::PI64 == M_PI, "math.constants", "PI");
    LAW(std::fabs(Math::PHI64 * Math::PHI64 - Math::PHI64 - 1) < 1e-14 && Math::PHI32 == (f32)Math::PHI64, "math.constants", "PHI");
}
template<typename T> static void limits(const char* name) {
    using L = Limits<T>; using S = std::numeric_limits<T>;
    LAW(L::max() == S::max() && L::min() == S::lowest(), "math.limits", "the limits of %s are [%g, %g], expected [%g, %g]", name, (double)L::min(), (double)L::max(), (double)S::lowest(), (double)S::max());
    if constexpr(std::is_floating_point_v<T>)
        LAW(L::smallest_norm() == S::min() && L::smallest_denorm() == S::denorm_min() && L::epsilon() == S::epsilon(), "math.limits", "smallest values of %s: normal %g, denormal %g, epsilon %g, expected %g, %g, %g", name, (double)L::smallest_norm(), (double)L::smallest_denorm(), (double)L::epsilon(), (double)S::min(), (double)S::denorm_min(), (double)S::epsilon());
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C25", "hash of (type, argument)");
    Rng r(mon::S().seed);
    uint64_t n = mon::n(40000, 2000000);
    if(mon::want("ints")) {
        ints<u8>(r, "u8", n / 4); ints<i8>(r, "i8", n / 4); ints<u16>(r, "u16", n); ints<i16>(r, "i16", n);
        ints<u32>(r, "u32", n); ints<i32>(r, "i32", n); ints<u64>(r, "u64", n); ints<i64>(r, "i64", n);
    }
    if(mon::want("bits")) { unsigneds<u32>(r, "u32", 3 * n); unsigneds<u64>(r, "u64", 3 * n); }
    if(mon::want("sizes")) sizes(r, 2 * n);
    if(mon::want("floats")) { floats<f32>(r, "f32", 3 * n); floats<f64>(r, "f64", 3 * n); }
    if(mon::want("f32")) f32_only(r, 3 * n);
    if(mon::want("limits")) { limits<u8>("u8"); limits<i8>("i8"); limits<u16>("u16"); limits<i16>("i16"); limits<u32>("u32"); limits<i32>("i32"); limits<u64>("u64"); limits<i64>("i64"); limits<f32>("f32"); limits<f64>("f64"); }
    Profile::finalize();
    return mon::finish();
}
