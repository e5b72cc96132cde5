// C14: the independent renderer, value generators and the check shared by the parts of the harness.
#pragma once
#include "mon.h"
#include <rpp/base.h>
#include <rpp/function.h>
#include <rpp/heap.h>
#include <rpp/map.h>
#include <rpp/queue.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/tuple.h>
#include <rpp/thread.h>
#include <rpp/variant.h>
#include <rpp/vmath.h>
using namespace rpp;
using mon::fmt;
using std::string;

enum class Colour : u8 { red, green, blue };
enum class Big : i64 { lo = -5000000000ll, zero = 0, hi = 5000000000ll };
struct Inner { i32 i; u16 u; bool b; };
struct Outer { Inner in; Vec<i32> v; String_View s; Colour c; f32 f; char ch; };
struct WithArr { i32 a[3]; f64 d; };
struct Hollow {};
struct One { u64 only; };
RPP_ENUM(Colour, red, RPP_CASE(red), RPP_CASE(green), RPP_CASE(blue));
RPP_NAMED_ENUM(Big, "Bigger", zero, RPP_CASE(lo), RPP_CASE(zero), RPP_CASE(hi));
RPP_RECORD(Inner, RPP_FIELD(i), RPP_FIELD(u), RPP_FIELD(b));
RPP_RECORD(Outer, RPP_FIELD(in), RPP_FIELD(v), RPP_FIELD(s), RPP_FIELD(c), RPP_FIELD(f), RPP_FIELD(ch));
RPP_RECORD(WithArr, RPP_FIELD(a), RPP_FIELD(d));
RPP_RECORD(Hollow);
RPP_NAMED_RECORD(One, "Named One", RPP_FIELD(only));

// ------------------------------------------------------------- independent renderer
static string dec(__int128 v) {
    if(v == 0) return "0";
    bool neg = v < 0;
    if(neg) v = -v;
    string s;
    while(v) { s += (char)('0' + (int)(v % 10)); v /= 10; }
    if(neg) s += '-';
    return string(s.rbegin(), s.rend());
}
static string flt(double d) {
    char b[400];
    ::snprintf(b, sizeof b, "%f", d);
    return b;
}
template<typename T> struct R;
template<typename T> static string rend(const T& t) { return R<T>::s(t); }
#define INT(T) template<> struct R<T> { static string s(const T& v) { return dec(v); } };
INT(i8) INT(u8) INT(i16) INT(u16) INT(i32) INT(u32) INT(i64) INT(u64)
template<> struct R<bool> { static string s(bool v) { return v ? "true" : "false"; } };
template<> struct R<char> { static string s(char v) { return string(1, v); } };
template<> struct R<f32> { static string s(f32 v) { return flt(v); } };
template<> struct R<f64> { static string s(f64 v) { return flt(v); } };
template<> struct R<decltype(null)> { static string s(decltype(null)) { return "(null)"; } };
template<> struct R<String_View> { static string s(const String_View& v) { return v.length() ? string((const char*)v.data(), v.length()) : ""; } };
template<typename A> struct R<String<A>> { static string s(const String<A>& v) { return rend(v.view()); } };
template<typename T> struct R<T*> { static string s(T* p) { if(!p) return "(null)"; return fmt("(0x%llx)", (unsigned long long)(uintptr_t)p); } };
template<typename C> static string seq(const char* name, const C& c) {
    string o = string(name) + "[";
    bool first = true;
    for(auto& x : c) { if(!first) o += ", "; first = false; o += rend<Decay<decltype(x)>>(x); }
    return o + "]";
}
template<typename T, u64 N> struct R<T[N]> { static string s(const T (&a)[N]) { string o = "["; for(u64 i = 0; i < N; i++) { if(i) o += ", "; o += rend(a[i]); } return o + "]"; } };
template<typename T> struct R<Vec<T>> { static string s(const Vec<T>& v) { return seq("Vec", v); } };
template<typename T> struct R<Slice<T>> { static string s(const Slice<T>& v) { return seq("Slice", v); } };
template<typename T> struct R<Stack<T>> { static string s(const Stack<T>& v) { return seq("Stack", v); } };
template<typename T> struct R<Queue<T>> { static string s(const Queue<T>& v) { return seq("Queue", v); } };
template<typename T> struct R<Heap<T>> { static string s(const Heap<T>& v) { return seq("Heap", v); } };
template<typename T, u64 N> struct R<Array<T, N>> { static string s(const Array<T, N>& v) { return seq("", v); } };
template<typename K, typename V> struct R<Map<K, V>> {
    static string s(const Map<K, V>& m) {
        string o = "Map[";
        bool first = true;
        for(auto& [k, v] : m) { if(!first) o += ", "; first = false; o += "{" + rend(k) + " : " + rend(v) + "}"; }
        return o + "]";
    }
};
template<typename A, typename B> struct R<Pair<A, B>> { static string s(const Pair<A, B>& p) { return "Pair{" + rend(p.first) + ", " + rend(p.second) + "}"; } };
template<typename T> struct R<Opt<T>> { static string s(const Opt<T>& p) { return p.ok() ? "Opt{" + rend(*p) + "}" : "Opt{None}"; } };
template<typename T> struct R<Box<T>> { static string s(const Box<T>& p) { return p.ok() ? "Box{" + rend(*p) + "}" : "Box{null}"; } };
template<typename T> struct R<Rc<T>> { static string s(const Rc<T>& p) { return p.ok() ? "Rc[" + dec(p.references()) + "]{" + rend(*p) + "}" : "Rc{null}"; } };
template<typename T> struct R<Arc<T>> { static string s(const Arc<T>& p) { return p.ok() ? "Arc[" + dec(p.references()) + "]{" + rend(*p) + "}" : "Arc{null}"; } };
template<typename T> struct R<Ref<T>> { static string s(const Ref<T>& p) { return p.ok() ? "Ref{" + rend(*p) + "}" : "Ref{null}"; } };
template<typename... Ts> struct R<Tuple<Ts...>> {
    static string s(const Tuple<Ts...>& t) { return "Tuple{" + go(t, std::index_sequence_for<Ts...>{}) + "}"; }
    template<size_t... I> static string go(const Tuple<Ts...>& t, std::index_sequence<I...>) {
        string o;
        ((o += (I ? ", " : "") + rend(t.template get<I>())), ...);
        return o;
    }
};
template<typename... Ts> struct R<Variant<Ts...>> {
    static string s(const Variant<Ts...>& v) { return "Variant{" + v.match(Overload{[](const Ts& x) { return rend(x); }...}) + "}"; }
};
template<Literal N, typename T> struct R<Named<N, T>> { static string s(const Named<N, T>& n) { return string(N.c_string) + "{" + rend(n.value) + "}"; } };
template<typename F, u64 N> struct R<Math::Vect<F, N>> {
    static string s(const Math::Vect<F, N>& v) {
        string o = "Vec" + dec(N) + (std::is_floating_point_v<F> ? "" : std::is_signed_v<F> ? "i" : "u") + "{";
        for(u64 i = 0; i < N; i++) o += (i ? ", " : "") + rend(v[i]);
        return o + "}";
    }
};
template<> struct R<Math::Mat4> {
    static string s(const Math::Mat4& m) {
        string o = "Mat4{";
        for(int i = 0; i < 4; i++) { o += i ? ", {" : "{"; for(int j = 0; j < 4; j++) o += (j ? ", " : "") + flt(m[i][j]); o += "}"; }
        return o + "}";
    }
};
template<> struct R<Math::Quat> { static string s(const Math::Quat& q) { return "Quat{" + flt(q.x) + ", " + flt(q.y) + ", " + flt(q.z) + ", " + flt(q.w) + "}"; } };
template<> struct R<Math::BBox> {
    static string s(const Math::BBox& b) {
        return "BBox{{" + flt(b.min.x) + ", " + flt(b.min.y) + ", " + flt(b.min.z) + "}, {" + flt(b.max.x) + ", " + flt(b.max.y) + ", " + flt(b.max.z) + "}}";
    }
};
template<> struct R<Colour> { static string s(const Colour& c) { return c == Colour::red ? "Colour::red" : c == Colour::green ? "Colour::green" : c == Colour::blue ? "Colour::blue" : "Colour::"; } };
template<> struct R<Big> { static string s(const Big& c) { return c == Big::lo ? "Bigger::lo" : c == Big::zero ? "Bigger::zero" : c == Big::hi ? "Bigger::hi" : "Bigger::"; } };
template<> struct R<Inner> { static string s(const Inner& x) { return "Inner{i : " + rend(x.i) + ", u : " + rend(x.u) + ", b : " + rend(x.b) + "}"; } };
template<> struct R<Outer> { static string s(const Outer& x) { return "Outer{in : " + rend(x.in) + ", v : " + rend(x.v) + ", s : " + rend(x.s) + ", c : " + rend(x.c) + ", f : " + rend(x.f) + ", ch : " + rend(x.ch) + "}"; } };
template<> struct R<WithArr> { static string s(const WithArr& x) { return "WithArr{a : " + rend(x.a) + ", d : " + rend(x.d) + "}"; } };
template<> struct R<Hollow> { static string s(const Hollow&) { return "Hollow{}"; } };
template<> struct R<One> { static string s(const One& x) { return "Named One{only : " + rend(x.only) + "}"; } };

// Type names: base types are named here, everything else is composed.
template<typename T> struct TN;
template<typename T> static string tn() { return TN<T>::s(); }
#define NAME(T, N) template<> struct TN<T> { static string s() { return N; } };
NAME(i8, "i8") NAME(u8, "u8") NAME(i16, "i16") NAME(u16, "u16") NAME(i32, "i32") NAME(u32, "u32") NAME(i64, "i64") NAME(u64, "u64") NAME(f32, "f32") NAME(f64, "f64")
NAME(bool, "bool") NAME(char, "char") NAME(void, "void") NAME(decltype(null), "null") NAME(String_View, "String_View") NAME(String<>, "String") NAME(String<Mhidden>, "String")
NAME(Colour, "Colour") NAME(Big, "Bigger") NAME(Inner, "Inner") NAME(Outer, "Outer") NAME(WithArr, "WithArr") NAME(Hollow, "Hollow") NAME(One, "Named One")
NAME(Math::Mat4, "Mat4") NAME(Math::Quat, "Quat") NAME(Math::BBox, "BBox") NAME(Log::Level, "Level") NAME(Log::Location, "Location") NAME(Thread::Atomic, "Atomic") NAME(Reflect::Kind, "Kind") NAME(Thread::Priority, "Priority")
template<typename T> struct TN<const T> { static string s() { return "const " + tn<T>(); } };
template<typename T> struct TN<volatile T> { static string s() { return "volatile " + tn<T>(); } };
template<typename T> struct TN<const volatile T> { static string s() { return "const volatile " + tn<T>(); } };
template<typename T> struct TN<T&> { static string s() { return tn<T>() + "&"; } };
template<typename T> struct TN<T&&> { static string s() { return tn<T>() + "&&"; } };
template<typename T> struct TN<T*> { static string s() { return tn<T>() + "*"; } };
template<typename T, u64 N> struct TN<T[N]> { static string s() { return tn<T>() + "[" + dec(N) + "]"; } };
template<typename... Ts> static string tns() { string o; size_t k = 0; ((o += (k++ ? ", " : "") + tn<Ts>()), ...); return o; }
#define NAME1(C) template<typename T, typename A> struct TN<C<T, A>> { static string s() { return #C "<" + tn<T>() + ">"; } };
NAME1(Vec) NAME1(Stack) NAME1(Queue) NAME1(Heap) NAME1(Box) NAME1(Rc) NAME1(Arc)
#define NAME0(C) template<typename T> struct TN<C<T>> { static string s() { return #C "<" + tn<T>() + ">"; } };
NAME0(Slice) NAME0(Opt) NAME0(Ref) NAME0(Storage)
template<typename T, u64 N> struct TN<Array<T, N>> { static string s() { return "Array<" + tn<T>() + ", " + dec(N) + ">"; } };
template<typename K, typename V, typename A> struct TN<Map<K, V, A>> { static string s() { return "Map<" + tns<K, V>() + ">"; } };
template<typename A, typename B> struct TN<Pair<A, B>> { static string s() { return "Pair<" + tns<A, B>() + ">"; } };
template<typename... Ts> struct TN<Tuple<Ts...>> { static string s() { return "Tuple<" + tns<Ts...>() + ">"; } };
template<typename... Ts> struct TN<Variant<Ts...>> { static string s() { return "Variant<" + tns<Ts...>() + ">"; } };
template<Literal N, typename T> struct TN<Named<N, T>> { static string s() { return N.c_string; } };
template<typename F, typename... As> struct TN<Function<F(As...)>> { static string s() { return "Function<" + tn<F>() + "(" + tns<As...>() + ")>"; } };
// values that show only their type
template<typename T> struct R<Storage<T>> { static string s(const Storage<T>&) { return "Storage<" + string(Reflect::Refl<T>::name.c_string) + ">"; } };
template<typename F, typename... As> struct R<Function<F(As...)>> { static string s(const Function<F(As...)>&) { return "Function{" + string(Reflect::Refl<F>::name.c_string) + "(" + tns<As...>() + ")}"; } };
template<> struct R<Thread::Atomic> { static string s(const Thread::Atomic& a) { return "Atomic{value_ : " + dec(a.load()) + "}"; } };
template<> struct R<Log::Location> { static string s(const Log::Location& l) { return "Location{function : " + rend(l.function) + ", file : " + rend(l.file) + ", line : " + rend(l.line) + "}"; } };
template<> struct R<Log::Level> { static string s(const Log::Level& l) { return l == Log::Level::info ? "Level::info" : l == Log::Level::warn ? "Level::warn" : "Level::fatal"; } };

// ------------------------------------------------------------- random values
using mon::Rng;
inline std::deque<string> pool; // bytes that views refer to
template<typename T> struct G;
template<typename T> static T gen(Rng& r) { return G<T>::g(r); }
template<typename T> static T gint(Rng& r) {
    switch(r(6)) {
    case 0: return std::numeric_limits<T>::min();
    case 1: return std::numeric_limits<T>::max();
    case 2: return (T)r(10);
    case 3: return (T)(0 - r(10));
    case 4: return (T)(1ull << r(64));
    default: return (T)r.next();
    }
}
#define GI(T) template<> struct G<T> { static T g(Rng& r) { return gint<T>(r); } };
GI(i8) GI(u8) GI(i16) GI(u16) GI(i32) GI(u32) GI(i64) GI(u64)
template<> struct G<bool> { static bool g(Rng& r) { return r.chance(50); } };
template<> struct G<char> { static char g(Rng& r) { return (char)(r.chance(50) ? r(256) : 32 + r(95)); } };
template<typename F> static F gf(Rng& r) {
    switch(r(8)) {
    case 0: return 0; case 1: return (F)-0.0; case 2: return std::numeric_limits<F>::infinity(); case 3: return -std::numeric_limits<F>::infinity();
    case 4: return std::numeric_limits<F>::quiet_NaN(); case 5: return std::numeric_limits<F>::max() * (r.chance(50) ? 1 : -1);
    case 6: return (F)((r.unit() - 0.5) * 1e-6);
    default: return (F)((r.unit() - 0.5) * std::pow(10.0, (double)r.range(-8, 20)));
    }
}
template<> struct G<f32> { static f32 g(Rng& r) { return gf<f32>(r); } };
template<> struct G<f64> { static f64 g(Rng& r) { return gf<f64>(r); } };
static bool g_long = false; // long texts, containers and format strings now and then
static string gstr(Rng& r) {
    string s;
    size_t n = g_long && r.chance(30) ? r(70000) : r.chance(20) ? 0 : r.chance(80) ? r(12) : r(300);
    for(size_t i = 0; i < n; i++) s += (char)(r.chance(10) ? '%' : r.chance(5) ? 0 : r.chance(70) ? 32 + r(95) : r(256));
    return s;
}
template<> struct G<String_View> { static String_View g(Rng& r) { pool.push_back(gstr(r)); if(pool.back().empty() && r.chance(50)) return String_View{}; return String_View{(const u8*)pool.back().data(), pool.back().size()}; } };
template<> struct G<String<>> { static String<> g(Rng& r) { return gen<String_View>(r).string(); } };
static u64 len(Rng& r) { if(g_long) return r.chance(5) ? r(r.chance(5) ? 3000 : 300) : r(3); return r.chance(20) ? 0 : r.chance(85) ? 1 + r(4) : r(40); }
template<typename T> struct G<Vec<T>> { static Vec<T> g(Rng& r) { Vec<T> v; for(u64 n = len(r); n; n--) v.push(gen<T>(r)); return v; } };
template<typename T> struct G<Stack<T>> { static Stack<T> g(Rng& r) { Stack<T> v; for(u64 n = len(r); n; n--) v.push(gen<T>(r)); return v; } };
template<typename T> struct G<Queue<T>> { static Queue<T> g(Rng& r) { Queue<T> v; for(u64 n = len(r) * 2; n; n--) { v.push(gen<T>(r)); if(r.chance(40)) v.pop(); } return v; } };
template<typename T> struct G<Heap<T>> { static Heap<T> g(Rng& r) { Heap<T> v; for(u64 n = len(r); n; n--) v.push(gen<T>(r)); return v; } };
template<typename T, u64 N> struct G<Array<T, N>> { static Array<T, N> g(Rng& r) { Array<T, N> a; for(u64 i = 0; i < N; i++) a[i] = gen<T>(r); return a; } };
template<typename K, typename V> struct G<Map<K, V>> { static Map<K, V> g(Rng& r) { Map<K, V> m; for(u64 n = len(r); n; n--) m.insert(gen<K>(r), gen<V>(r)); return m; } };
template<typename A, typename B> struct G<Pair<A, B>> { static Pair<A, B> g(Rng& r) { A a = gen<A>(r); return Pair<A, B>{std::move(a), gen<B>(r)}; } };
template<typename T> struct G<Opt<T>> { static Opt<T> g(Rng& r) { return r.chance(30) ? Opt<T>{} : Opt<T>{gen<T>(r)}; } };
template<typename T> struct G<Box<T>> { static Box<T> g(Rng& r) { return r.chance(30) ? Box<T>{} : Box<T>{gen<T>(r)}; } };
template<typename T> struct G<Rc<T>> { static Rc<T> g(Rng& r) { return r.chance(30) ? Rc<T>{} : Rc<T>{gen<T>(r)}; } };
template<typename T> struct G<Arc<T>> { static Arc<T> g(Rng& r) { return r.chance(30) ? Arc<T>{} : Arc<T>{gen<T>(r)}; } };
template<typename... Ts> struct G<Tuple<Ts...>> { static Tuple<Ts...> g(Rng& r) { return Tuple<Ts...>{gen<Ts>(r)...}; } };
template<typename A, typename B> struct G<Variant<A, B>> { static Variant<A, B> g(Rng& r) { if(r.chance(50)) return Variant<A, B>{gen<A>(r)}; return Variant<A, B>{gen<B>(r)}; } };
template<Literal N, typename T> struct G<Named<N, T>> { static Named<N, T> g(Rng& r) { return Named<N, T>{gen<T>(r)}; } };
template<typename F, u64 N> struct G<Math::Vect<F, N>> { static Math::Vect<F, N> g(Rng& r) { Math::Vect<F, N> v; for(u64 i = 0; i < N; i++) v[i] = gen<F>(r); return v; } };
template<> struct G<Math::Mat4> { static Math::Mat4 g(Rng& r) { Math::Mat4 m; for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) m[i][j] = gen<f32>(r); return m; } };
template<> struct G<Math::Quat> { static Math::Quat g(Rng& r) { return Math::Quat{gen<f32>(r), gen<f32>(r), gen<f32>(r), gen<f32>(r)}; } };
template<> struct G<Math::BBox> { static Math::BBox g(Rng& r) { return Math::BBox{gen<Math::Vec3>(r), gen<Math::Vec3>(r)}; } };
template<> struct G<Colour> { static Colour g(Rng& r) { return (Colour)r(r.chance(10) ? 256 : 3); } };
template<> struct G<Big> { static Big g(Rng& r) { return r.chance(10) ? (Big)r.next() : r.chance(33) ? Big::lo : r.chance(50) ? Big::zero : Big::hi; } };
template<> struct G<Inner> { static Inner g(Rng& r) { return Inner{gen<i32>(r), gen<u16>(r), gen<bool>(r)}; } };
template<> struct G<Outer> { static Outer g(Rng& r) { return Outer{gen<Inner>(r), gen<Vec<i32>>(r), gen<String_View>(r), gen<Colour>(r), gen<f32>(r), gen<char>(r)}; } };
template<> struct G<WithArr> { static WithArr g(Rng& r) { return WithArr{{gen<i32>(r), gen<i32>(r), gen<i32>(r)}, gen<f64>(r)}; } };
template<> struct G<Hollow> { static Hollow g(Rng&) { return {}; } };
template<> struct G<One> { static One g(Rng& r) { return {gen<u64>(r)}; } };
template<> struct G<i32*> { static i32* g(Rng& r) { return r.chance(30) ? nullptr : (i32*)(r.chance(40) ? r.next() >> 16 : r.chance(40) ? r.next() >> r(63) : 1 + r(100)); } };
template<> struct G<const u8*> { static const u8* g(Rng& r) { return (const u8*)gen<i32*>(r); } };

// ------------------------------------------------------------- checks
static string show(const string& s) {
    string o;
    for(unsigned char c : s.substr(0, 160)) o += c >= 32 && c < 127 ? string(1, (char)c) : fmt("\\x%02x", c);
    return o + fmt(" (%zu)", s.size());
}
template<typename S> static string take(const S& s) { return s.length() ? string((const char*)s.data(), s.length()) : ""; }
static String_View view(const string& s) { return String_View{(const u8*)s.data(), s.size()}; }

static int args_in(const string& f) { // leftmost parse: %% is a literal, any other % takes an argument
    int n = 0;
    for(size_t i = 0; i < f.size(); i++)
        if(f[i] == '%') { if(i + 1 < f.size() && f[i + 1] == '%') i++; else n++; }
    return n;
}
static string subst(const string& f, const std::vector<string>& a) {
    string o;
    size_t k = 0;
    for(size_t i = 0; i < f.size(); i++) {
        if(f[i] != '%') o += f[i];
        else if(i + 1 < f.size() && f[i + 1] == '%') { o += '%'; i++; }
        else o += a[k++];
    }
    return o;
}
static string gfmt(Rng& r, int want) { // format string with exactly that many arguments
    for(;;) {
        string s;
        for(int i = 0; i < want; i++) {
            for(u64 k = r(g_long ? 20000 : 4); k; k--) { string c = r.chance(25) ? "%%" : string(1, (char)(r.chance(80) ? 32 + r(95) : r(256))); if(!(g_long && c == "%")) s += c; }
            s += '%';
        }
        for(u64 k = r(g_long ? 20000 : 4); k; k--) { string c = r.chance(25) ? "%%" : string(1, (char)(32 + r(95))); if(!(g_long && c == "%")) s += c; }
        if(args_in(s) == want) {
            // a lone % right before "%%" re-associates; the reference parses the same text
            return s;
        }
    }
}
template<typename... Ts> static void check(Rng& r, const Ts&... ts) {
    string f = gfmt(r, sizeof...(Ts));
    std::vector<string> a{rend(ts)...};
    string want = subst(f, a);
    mon::ctx("format \"%s\"", show(f).c_str());
    std::vector<char> exact(f.begin(), f.end()); // heap copy without terminator
    String_View fv{(const u8*)exact.data(), exact.size()};
    auto out = format<Mdefault>(fv, ts...);
    u64 m = format_length(fv, ts...);
    mon::eval();
    string got = take(out);
    MON_CHECK(got == want, "format.text", "format(\"%s\") gave %s expected %s", show(f).c_str(), show(got).c_str(), show(want).c_str());
    MON_CHECK(m == want.size() && out.length() == m, "format.length", "measured %llu, wrote %zu, expected %zu", (unsigned long long)m, got.size(), want.size());
    mon::distinct(mon::hstr(want));
    mon::count("bytes", want.size());
    if(r.chance(10)) {
        Region(Rg) {
            auto o2 = format<Mregion<Rg>>(fv, ts...);
            MON_CHECK(take(o2) == want, "format.text", "region formatted text differs");
        }
    }
}
template<typename T> static void type(Rng& r, const char* name, u64 times) {
    mon::ctx("type %s", name);
    mon::count("types");
    for(u64 i = 0; i < times; i++) {
        T v = gen<T>(r);
        check(r, v);
        if(i == 0) mon::sample(string(name) + ": " + show(rend(v)));
        pool.clear();
    }
}
