// C26: vectors. Every F32x4 and Vect operation is compared, component by component, with the scalar operation; operands
// are compared with copies taken before the call.
#include "mon.h"
#include <limits>
#include <rpp/base.h>
#include <rpp/vmath.h>
using namespace rpp;
using mon::Rng;
using SIMD::F32x4;

template<typename T> constexpr const char* tname() { return Same<T, f32> ? "f32" : Same<T, f64> ? "f64" : Same<T, i32> ? "i32" : Same<T, u32> ? "u32" : Same<T, i64> ? "i64" : Same<T, u64> ? "u64" : Same<T, u8> ? "u8" : "?"; }
// Values for which sums, products and reductions stay representable (integers) or finite (floats).
template<typename T> static T val(Rng& r) {
    if constexpr(Float<T>) {
        T s = r.chance(50) ? (T)-1 : (T)1;
        switch(r(7)) {
        case 0: return s * (T)r(3);
        case 1: return s * (T)r(100);
        case 2: return s * ((T)r(100) + (T)0.5);
        case 3: return s * std::nextafter((T)(1 + r(100)), (T)(r.chance(50) ? -1 : 1000));
        case 4: return s * (T)std::ldexp(1.0 + r.unit(), (int)r.range(-20, 20));
        case 5: return s * (T)(8388608.0 + r(3) * 0.5);
        default: return (T)(r.unit() * 200 - 100);
        }
    } else if constexpr((T)-1 < (T)0) return r.chance(20) ? (T)r.range(-2, 2) : (T)r.range(-9000, 9000);
    else return r.chance(20) ? (T)r(3) : r.chance(50) ? (T)r(10000) : (T)r.next();
}
template<typename T> static bool eq(T a, T b) { if constexpr(Float<T>) return a == b || (a != a && b != b); else return a == b; }
template<typename T> static T nz(T v) { return v == T{} ? T{1} : v; }

template<typename T, u64 N> struct Suite {
    using V = Math::Vect<T, N>;
    using A = std::array<T, N>;
    Rng& r;
    A get(const V& v) { A a; for(u64 i = 0; i < N; i++) a[i] = v[i]; return a; }
    V make(const A& a) { V v; for(u64 i = 0; i < N; i++) v[i] = a[i]; return v; }
    bool wide = false; // component-wise operations also on magnitudes whose sums and products overflow or underflow
    T pick() {
        if constexpr(Float<T>) if(wide && r.chance(70)) { int e = std::numeric_limits<T>::max_exponent - 1; T v = (T)std::ldexp(1.0 + r.unit(), (int)r.range(-e, e)); return r.chance(50) ? v : -v; }
        return val<T>(r);
    }
    A rnd(bool nonzero = false) { A a; for(auto& x : a) { x = pick(); if(nonzero) x = nz(x); } return a; }
    std::string show(const A& a) { std::string s = "("; for(auto x : a) s += mon::fmt("%.9g ", (double)x); return s + ")"; }
    const char* op = "";
    void bad(const char* key, const A& got, const A& want, const A& x, const A& y, T s) { mon::violation(key, "Vect<%s, %d> %s: got %s, component-wise %s; operands %s %s scalar %.9g", tname<T>(), (int)N, op, show(got).c_str(), show(want).c_str(), show(x).c_str(), show(y).c_str(), (double)s); }
    bool same(const A& a, const A& b) { for(u64 i = 0; i < N; i++) if(!eq(a[i], b[i])) return false; return true; }
    template<typename FV, typename FS> void vv(const char* name, FV fv, FS fs, bool nonzero = false) { // vector op vector
        op = name;
        A x = rnd(), y = rnd(nonzero), w;
        V a = make(x), b = make(y);
        for(u64 i = 0; i < N; i++) w[i] = (T)fs(x[i], y[i]);
        A g = get(fv(a, b));
        if(!same(g, w)) bad("vect.op", g, w, x, y, T{});
        if(!same(get(a), x) || !same(get(b), y)) bad("vect.operand", get(a), x, x, y, T{});
        for(u64 i = 0; i < N; i++) w[i] = (T)fs(y[i], y[i]);
        g = get(fv(b, b)); // the same vector twice
        if(!same(g, w)) bad("vect.op", g, w, y, y, T{});
        mon::eval(2);
    }
    template<typename FV, typename FS> void vs(const char* name, FV fv, FS fs, bool nonzero_s = false, bool nonzero_v = false) { // vector with scalar
        op = name;
        A x = rnd(nonzero_v), w;
        T s = val<T>(r);
        if(nonzero_s) s = nz(s);
        V a = make(x);
        for(u64 i = 0; i < N; i++) w[i] = (T)fs(x[i], s);
        A g = get(fv(a, s));
        if(!same(g, w)) bad("vect.op", g, w, x, x, s);
        if(!same(get(a), x)) bad("vect.operand", get(a), x, x, x, s);
        mon::eval();
    }
    template<typename FV, typename FS> void compound(const char* name, FV fv, FS fs, bool nonzero = false) {
        op = name;
        A x = rnd(), y = rnd(nonzero), w;
        V a = make(x), b = make(y);
        for(u64 i = 0; i < N; i++) w[i] = (T)fs(x[i], y[i]);
        A g = get(fv(a, b));
        if(!same(g, w) || !same(get(a), w)) bad("vect.compound", get(a), w, x, y, T{});
        if(!same(get(b), y)) bad("vect.operand", get(b), y, x, y, T{});
        a = make(y);
        for(u64 i = 0; i < N; i++) w[i] = (T)fs(y[i], y[i]);
        fv(a, a); // with itself
        if(!same(get(a), w)) bad("vect.compound", get(a), w, y, y, T{});
        T s = nonzero ? nz(val<T>(r)) : val<T>(r);
        mon::eval(2);
    }
    template<typename FV, typename FS> void compound_s(const char* name, FV fv, FS fs, bool nonzero = false) {
        op = name;
        A x = rnd(), w;
        T s = nonzero ? nz(val<T>(r)) : val<T>(r);
        V a = make(x);
        for(u64 i = 0; i < N; i++) w[i] = (T)fs(x[i], s);
        A g = get(fv(a, s));
        if(!same(g, w) || !same(get(a), w)) bad("vect.compound", get(a), w, x, x, s);
        u64 j = r(N); // the scalar is one of the vector's own components
        if(nonzero) x[j] = nz(x[j]);
        a = make(x);
        for(u64 i = 0; i < N; i++) w[i] = (T)fs(x[i], x[j]);
        g = get(fv(a, a[j]));
        if(!same(g, w) || !same(get(a), w)) bad("vect.compound", get(a), w, x, x, x[j]);
        mon::eval(2);
    }
    template<typename FV, typename FS> void un(const char* name, FV fv, FS fs) {
        op = name;
        A x = rnd(), w;
        V a = make(x);
        for(u64 i = 0; i < N; i++) w[i] = (T)fs(x[i]);
        A g = get(fv(a));
        if(!same(g, w)) bad("vect.op", g, w, x, x, T{});
        if(!same(get(a), x)) bad("vect.operand", get(a), x, x, x, T{});
        mon::eval();
    }
    void near_(const char* name, double got, double want, double scale, const A& x, const A& y) {
        mon::eval();
        if(!(std::fabs(got - want) <= scale * 8 * (double)std::numeric_limits<T>::epsilon() + 1e-300)) mon::violation("vect.reduction", "Vect<%s, %d> %s = %.17g, expected %.17g; operands %s %s", tname<T>(), (int)N, name, got, want, show(x).c_str(), show(y).c_str());
    }
    void reductions() {
        A x = rnd(), y = rnd();
        if(r.chance(20)) for(u64 i = 0; i < N; i++) if(r.chance(60)) x[i] = T{};
        V a = make(x), b = make(y);
        long double d = 0, n2 = 0, sd = 0;
        uint64_t id = 0, in2 = 0;
        for(u64 i = 0; i < N; i++) { d += (long double)x[i] * y[i]; sd += std::fabs((long double)x[i] * y[i]); n2 += (long double)x[i] * x[i]; if constexpr(!Float<T>) { id += (uint64_t)x[i] * (uint64_t)y[i]; in2 += (uint64_t)x[i] * (uint64_t)x[i]; } }
        if constexpr(Float<T>) {
            near_("dot", Math::dot(a, b), (double)d, (double)sd, x, y);
            near_("dot", Math::dot(a, a), (double)n2, (double)n2, x, x);
            near_("norm2", a.norm2(), (double)n2, (double)n2, x, x);
            near_("norm", a.norm(), (double)std::sqrt(n2), (double)std::sqrt(n2), x, x);
            if(n2 > 1e-20) {
                V u = a.unit(), m = Math::normalize(a), k = a;
                if(!same(get(a), x)) bad("vect.operand", get(a), x, x, x, T{});
                V k2 = k.normalize();
                for(u64 i = 0; i < N; i++) {
                    double w = (double)((long double)x[i] / std::sqrt(n2));
                    near_("unit", u[i], w, 1, x, x);
                    near_("normalize", m[i], w, 1, x, x);
                    near_("normalize (in place)", k[i], w, 1, x, x);
                    near_("normalize (returned)", k2[i], w, 1, x, x);
                }
            }
        } else {
            MON_CHECK(Math::dot(a, b) == (T)id, "vect.reduction", "Vect<%s, %d> dot is %lld, expected %lld", tname<T>(), (int)N, (long long)Math::dot(a, b), (long long)(T)id);
            MON_CHECK(a.norm2() == (T)in2, "vect.reduction", "Vect<%s, %d> norm2", tname<T>(), (int)N);
        }
        MON_CHECK(a.min() == *std::min_element(x.begin(), x.end()), "vect.minmax", "Vect<%s, %d> min() of %s is %.9g", tname<T>(), (int)N, show(x).c_str(), (double)a.min());
        MON_CHECK(a.max() == *std::max_element(x.begin(), x.end()), "vect.minmax", "Vect<%s, %d> max() of %s is %.9g", tname<T>(), (int)N, show(x).c_str(), (double)a.max());
        mon::eval(2);
    }
    void structure() {
        op = "structure";
        A x = rnd();
        V a = make(x), zero;
        for(u64 i = 0; i < N; i++) MON_CHECK(zero[i] == T{}, "vect.construct", "a default Vect<%s, %d> is not zero", tname<T>(), (int)N);
        T s = val<T>(r);
        V all{s};
        for(u64 i = 0; i < N; i++) MON_CHECK(all[i] == s, "vect.construct", "Vect(s) component %d", (int)i);
        V b = [&]<u64... I>(std::index_sequence<I...>) { return V{x[I]...}; }(std::make_index_sequence<N>());
        if(!same(get(b), x)) bad("vect.construct", get(b), x, x, x, T{});
        if constexpr(N > 2) {
            Math::Vect<T, N - 1> front;
            for(u64 i = 0; i + 1 < N; i++) front[i] = x[i];
            V c{front, x[N - 1]};
            if(!same(get(c), x)) bad("vect.construct", get(c), x, x, x, T{});
            A d = rnd();
            d[N - 1] = nz(d[N - 1]);
            auto p = make(d).proj();
            for(u64 i = 0; i + 1 < N; i++) MON_CHECK(eq<T>(p[i], d[i] / d[N - 1]), "vect.proj", "Vect<%s, %d> proj component %d", tname<T>(), (int)N, (int)i);
        }
        u64 i = 0;
        for(T& v : a) { MON_CHECK(&v == &a[i] && eq(v, x[i]), "vect.iterate", "iteration step %d", (int)i); i++; }
        MON_CHECK(i == N, "vect.iterate", "%d components visited", (int)i);
        const V& ca = a;
        i = 0;
        for(const T& v : ca) { MON_CHECK(&v == &ca[i] && eq(v, x[i]), "vect.iterate", "const iteration step %d", (int)i); i++; }
        // comparison: equal exactly when every component is
        V c = a;
        MON_CHECK((a == c) && !(a != c), "vect.compare", "a copy of %s is not equal", show(x).c_str());
        for(u64 k = 0; k < N; k++) {
            V d = a;
            d[k] = Float<T> ? (T)std::nextafter((double)x[k] + (x[k] == (T)(x[k] + 1) ? 1e9 : 1), 1e300) : (T)(x[k] + 1);
            if(d[k] != x[k]) MON_CHECK(!(a == d) && (a != d) && !(d == a), "vect.compare", "vectors that differ in component %d compare equal", (int)k);
            V e;
            e[k] = x[k];
            MON_CHECK((e == zero) == (x[k] == T{}), "vect.compare", "comparison with zero, component %d = %.9g", (int)k, (double)x[k]);
        }
        if constexpr(Float<T>) {
            u64 k = r(N);
            V p = zero, q = zero;
            p[k] = (T)0;
            q[k] = (T)-0.0;
            MON_CHECK(p == q && rpp::hash(p) == rpp::hash(q), "vect.hash", "vectors with 0 and -0 differ in equality or hash");
            V n = a;
            n[k] = std::numeric_limits<T>::quiet_NaN();
            MON_CHECK(!(n == n) && (n != n), "vect.compare", "a vector with a NaN in component %d equals itself", (int)k);
        }
        MON_CHECK(rpp::hash(a) == rpp::hash(b), "vect.hash", "equal vectors have different hashes");
        if(r.chance(50)) {
            V d = a;
            u64 k = r(N), j = r(N);
            std::swap(d[k], d[j]);
            if(d != a) MON_CHECK(rpp::hash(d) != rpp::hash(a), "vect.hash", "swapping components %d and %d keeps the hash", (int)k, (int)j);
        }
        mon::eval(N + 6);
        mon::distinct(mon::mix(N, mon::hstr(show(x))));
        // conversions
        auto l = a.template as<f64>();
        for(u64 k = 0; k < N; k++) MON_CHECK(l[k] == (double)x[k], "vect.as", "as<f64> component %d", (int)k);
        bool fits = true;
        for(auto v : x) fits = fits && std::fabs((double)v) < 1e9;
        if(fits) { auto q = a.template as<i32>(); for(u64 k = 0; k < N; k++) MON_CHECK(q[k] == (i32)x[k], "vect.as", "as<i32> component %d of %s", (int)k, show(x).c_str()); }
        if constexpr(N == 4) { auto q = a.template as<f32>(); for(u64 k = 0; k < N; k++) MON_CHECK(q[k] == (f32)x[k], "vect.as", "as<f32> component %d", (int)k); }
    }
    void views() {
        A x = rnd();
        V a = make(x);
        const V& ca = a;
        bool ok = true;
        if constexpr(N >= 2 && N <= 4) ok = ok && &a.x == &a[0] && &a.y == &a[1];
        if constexpr(N >= 3 && N <= 4) {
            ok = ok && &a.z == &a[2] && eq(ca.xy()[0], x[0]) && eq(ca.xy()[1], x[1]) && eq(ca.yz()[0], x[1]) && eq(ca.yz()[1], x[2]);
            Math::Vect<T, 2> n{val<T>(r), val<T>(r)};
            u64 at = r(2);
            (at ? a.yz() : a.xy()) = n;
            x[at] = n[0];
            x[at + 1] = n[1];
            ok = ok && same(get(a), x);
        }
        if constexpr(N == 4) {
            ok = ok && &a.w == &a[3] && eq(ca.zw()[0], x[2]) && eq(ca.zw()[1], x[3]);
            for(u64 k = 0; k < 3; k++) ok = ok && eq(ca.xyz()[k], x[k]) && eq(ca.yzw()[k], x[k + 1]);
            Math::Vect<T, 3> n{val<T>(r), val<T>(r), val<T>(r)};
            u64 at = r(2);
            (at ? a.yzw() : a.xyz()) = n;
            for(u64 k = 0; k < 3; k++) x[at + k] = n[k];
            ok = ok && same(get(a), x);
            T s = val<T>(r);
            a.zw() += s;
            x[2] = (T)(x[2] + s);
            x[3] = (T)(x[3] + s);
            ok = ok && same(get(a), x) && same(get(ca), x);
            V copy = a;
            ok = ok && same(get(copy), x);
        }
        MON_CHECK(ok, "vect.views", "Vect<%s, %d>: a component view does not show the components: %s expected %s", tname<T>(), (int)N, show(get(a)).c_str(), show(x).c_str());
        mon::eval();
    }
    void all() {
        using C = const V&;
        mon::ctx("Vect<%s, %d>", tname<T>(), (int)N);
        auto add = [](T a, T b) { return a + b; };
        auto sub = [](T a, T b) { return a - b; };
        auto mul = [](T a, T b) { if constexpr(!Float<T>) return (T)((uint64_t)a * (uint64_t)b); else return a * b; };
        auto div = [](T a, T b) { return a / b; };
        wide = r.chance(25);
        vv("a + b", [](C a, C b) { return a + b; }, add);
        vv("a - b", [](C a, C b) { return a - b; }, sub);
        vv("a * b", [](C a, C b) { return a * b; }, mul);
        vv("a / b", [](C a, C b) { return a / b; }, div, true);
        vv("min(a, b)", [](C a, C b) { return Math::min(a, b); }, [](T a, T b) { return b < a ? b : a; });
        vv("max(a, b)", [](C a, C b) { return Math::max(a, b); }, [](T a, T b) { return a < b ? b : a; });
        vs("a + s", [](C a, T s) { return a + s; }, add);
        vs("a - s", [](C a, T s) { return a - s; }, sub);
        vs("a * s", [](C a, T s) { return a * s; }, mul);
        vs("a / s", [](C a, T s) { return a / s; }, div, true);
        vs("s + a", [](C a, T s) { return s + a; }, add);
        vs("s - a", [](C a, T s) { return s - a; }, [](T a, T s) { return s - a; });
        vs("s * a", [](C a, T s) { return s * a; }, mul);
        vs("s / a", [](C a, T s) { return s / a; }, [](T a, T s) { return s / a; }, false, true);
        compound("a += b", [](V& a, C b) { return a += b; }, add);
        compound("a -= b", [](V& a, C b) { return a -= b; }, sub);
        compound("a *= b", [](V& a, C b) { return a *= b; }, mul);
        compound("a /= b", [](V& a, C b) { return a /= b; }, div, true);
        compound_s("a += s", [](V& a, const T& s) { return a += s; }, add);
        compound_s("a -= s", [](V& a, const T& s) { return a -= s; }, sub);
        compound_s("a *= s", [](V& a, const T& s) { return a *= s; }, mul);
        compound_s("a /= s", [](V& a, const T& s) { return a /= s; }, div, true);
        if constexpr(Float<T> || Same<T, i32> || Same<T, i64>) {
            un("a.abs()", [](V& a) { return a.abs(); }, [](T a) { return a < 0 ? -a : a; });
            un("abs(a)", [](V& a) { return Math::abs(a); }, [](T a) { return a < 0 ? -a : a; });
            un("-a", [](V& a) { return -a; }, [](T a) { return -a; });
        }
        if constexpr(Float<T>) {
            un("a.floor()", [](V& a) { return a.floor(); }, [](T a) { return std::floor(a); });
            un("a.ceil()", [](V& a) { return a.ceil(); }, [](T a) { return std::ceil(a); });
            wide = false;
            A x = rnd(), y = rnd();
            T d = r.chance(40) ? (T)r(2) : (T)(r.unit() * 3 - 1);
            V a = make(x), b = make(y), l = Math::lerp(a, b, d);
            op = "lerp(a, b, d)";
            for(u64 i = 0; i < N; i++) near_("lerp", l[i], (double)((long double)x[i] + ((long double)y[i] - x[i]) * d), (std::fabs((double)x[i]) + std::fabs((double)y[i])) * 4, x, y);
            if(!same(get(a), x) || !same(get(b), y)) bad("vect.operand", get(a), x, x, y, d);
        }
        {
            A lo = rnd(), hi = rnd(), x = rnd(), w;
            for(u64 i = 0; i < N; i++) { if(hi[i] < lo[i]) std::swap(hi[i], lo[i]); w[i] = x[i] < lo[i] ? lo[i] : x[i] > hi[i] ? hi[i] : x[i]; }
            op = "clamp(x, lo, hi)";
            A g = get(Math::clamp(make(x), make(lo), make(hi)));
            if(!same(g, w)) bad("vect.op", g, w, x, lo, T{});
            mon::eval();
        }
        reductions();
        structure();
        views();
    }
};
template<typename T, u64 N> static void suite(Rng& r, uint64_t n) {
    Suite<T, N> s{r};
    for(uint64_t i = 0; i < n; i++) s.all();
}
static void cross(Rng& r, uint64_t n) {
    for(uint64_t c = 0; c < n; c++) {
        Vec3 a{val<f32>(r), val<f32>(r), val<f32>(r)}, b{val<f32>(r), val<f32>(r), val<f32>(r)}, k = Math::cross(a, b);
        for(int i = 0; i < 3; i++) {
            int p = (i + 1) % 3, q = (i + 2) % 3;
            double w = (double)a[p] * b[q] - (double)a[q] * b[p], s = std::fabs((double)a[p] * b[q]) + std::fabs((double)a[q] * b[p]);
            MON_CHECK(std::fabs(k[i] - w) <= s * 4e-7, "vect.cross", "component %d of cross((%g,%g,%g), (%g,%g,%g)) is %g, expected %g", i, a.x, a.y, a.z, b.x, b.y, b.z, k[i], w);
            mon::eval();
        }
    }
}
static f32 special(Rng& r) {
    if(r.chance(80)) return val<f32>(r);
    static const f32 s[] = {INFINITY, -INFINITY, NAN, 0.0f, -0.0f, 3e38f, -3e38f, 1e-40f, 1.17549435e-38f};
    return s[r(9)];
}
static void simd(Rng& r, uint64_t n) {
    for(uint64_t c = 0; c < n; c++) {
        f32 x[4], y[4];
        for(int i = 0; i < 4; i++) { x[i] = special(r); y[i] = r.chance(15) ? x[i] : special(r); }
        mon::ctx("F32x4 (%g %g %g %g) (%g %g %g %g)", x[0], x[1], x[2], x[3], y[0], y[1], y[2], y[3]);
        F32x4 a = F32x4::set(x[0], x[1], x[2], x[3]), b = F32x4::set(y[0], y[1], y[2], y[3]);
        auto comp = [&](const char* op, F32x4 g, auto f) {
            mon::eval();
            for(int i = 0; i < 4; i++)
                if(!eq<f32>(g.data[i], f(x[i], y[i]))) { mon::violation("simd.op", "F32x4::%s component %d of %.9g and %.9g is %.9g, expected %.9g", op, i, x[i], y[i], (f32)g.data[i], f(x[i], y[i])); break; }
        };
        comp("set", a, [](f32 p, f32) { return p; });
        comp("add", F32x4::add(a, b), [](f32 p, f32 q) { return p + q; });
        comp("sub", F32x4::sub(a, b), [](f32 p, f32 q) { return p - q; });
        comp("mul", F32x4::mul(a, b), [](f32 p, f32 q) { return p * q; });
        comp("div", F32x4::div(a, b), [](f32 p, f32 q) { return p / q; });
        bool nan = false;
        for(int i = 0; i < 4; i++) nan = nan || std::isnan(x[i]) || std::isnan(y[i]);
        if(!nan) {
            comp("min", F32x4::min(a, b), [](f32 p, f32 q) { return q < p ? q : p; });
            comp("max", F32x4::max(a, b), [](f32 p, f32 q) { return p < q ? q : p; });
        }
        comp("floor", F32x4::floor(a), [](f32 p, f32) { return std::floor(p); });
        comp("ceil", F32x4::ceil(a), [](f32 p, f32) { return std::ceil(p); });
        comp("abs", F32x4::abs(a), [](f32 p, f32) { return std::fabs(p); });
        comp("set1", F32x4::set1(x[0]), [&](f32, f32) { return x[0]; });
        comp("zero", F32x4::zero(), [](f32, f32) { return 0.0f; });
        comp("one", F32x4::one(), [](f32, f32) { return 1.0f; });
        for(int i = 0; i < 4; i++) { MON_CHECK(!std::signbit((f32)F32x4::abs(a).data[i]), "simd.op", "F32x4::abs(%g) is negative", x[i]); }
        bool all = true;
        for(int i = 0; i < 4; i++) all = all && x[i] == y[i];
        MON_CHECK(F32x4::cmpeq_all(a, b) == all, "simd.cmpeq", "cmpeq_all is %d for (%g %g %g %g) and (%g %g %g %g)", !all, x[0], x[1], x[2], x[3], y[0], y[1], y[2], y[3]);
        for(int k = 0; k < 4; k++) { // one component differs
            F32x4 d = a;
            d.data[k] = d.data[k] + 1 == d.data[k] ? 0.5f : d.data[k] + 1;
            if(!nan && d.data[k] != a.data[k]) MON_CHECK(!F32x4::cmpeq_all(a, d), "simd.cmpeq", "vectors differing in component %d compare equal", k);
        }
        double w = 0, s = 0;
        bool finite = true;
        for(int i = 0; i < 4; i++) { double p = (double)x[i] * y[i]; w += p; s += std::fabs(p); finite = finite && std::isfinite(x[i]) && std::isfinite(y[i]); }
        if(finite && s < 1e38) MON_CHECK(std::fabs(F32x4::dp(a, b) - w) <= s * 8 * 1.2e-7 + 1e-44 * 8, "simd.dp", "dp = %.9g, expected %.9g", F32x4::dp(a, b), w);
        Vec4 v{a};
        for(int i = 0; i < 4; i++) MON_CHECK(eq<f32>(v[i], x[i]), "simd.vec4", "Vec4 of a pack, component %d", i);
        mon::distinct(mon::mix((uint64_t)std::hash<f32>()(x[0]), std::hash<f32>()(y[1])));
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C26", "hash of (dimension, components)");
    Rng r(mon::S().seed);
    uint64_t n = mon::n(6000, 300000);
    if(mon::want("f32")) { suite<f32, 2>(r, n); suite<f32, 3>(r, n); suite<f32, 4>(r, 2 * n); suite<f32, 5>(r, n / 2); suite<f32, 9>(r, n / 2); }
    if(mon::want("f64")) { suite<f64, 2>(r, n / 2); suite<f64, 3>(r, n / 2); suite<f64, 4>(r, n / 2); }
    if(mon::want("i32")) { suite<i32, 2>(r, n); suite<i32, 3>(r, n); suite<i32, 4>(r, n); suite<i32, 6>(r, n / 2); suite<i64, 3>(r, n / 2); }
    if(mon::want("u32")) { suite<u32, 2>(r, n); suite<u32, 3>(r, n); suite<u32, 4>(r, n); suite<u32, 7>(r, n / 2); suite<u64, 4>(r, n / 2); suite<u8, 4>(r, n / 2); }
    if(mon::want("cross")) cross(r, 20 * n);
    if(mon::want("simd")) simd(r, 20 * n);
    Profile::finalize();
    return mon::finish();
}
