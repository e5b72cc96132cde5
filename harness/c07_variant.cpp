// C07: Variant and Function hold, dispatch to and destroy exactly the alternative / callable last stored.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/box.h>
#include <rpp/variant.h>
using namespace rpp;

// Distinct tracked alternatives with different sizes and alignments.
template<int I, int PAD, int AL = 8> struct Alt { Trk t; alignas(AL) unsigned char pad[PAD]; explicit Alt(int64_t v) : t(v) { fill(v); } Alt(Alt&& o) noexcept : t(move(o.t)) { memcpy(pad, o.pad, PAD); } Alt& operator=(Alt&& o) noexcept { t = move(o.t); memcpy(pad, o.pad, PAD); return *this; }
    void fill(int64_t v) { for(int i = 0; i < PAD; i++) pad[i] = (unsigned char)(v * 31 + i + I); }
    bool ok(int64_t v) const { for(int i = 0; i < PAD; i++) if(pad[i] != (unsigned char)(v * 31 + i + I)) return false; return t.get() == v; }
    Alt clone() const { return Alt(t.get()); } static constexpr int tag = I; static Alt mk(int64_t v) { return Alt(v); } static constexpr bool trk = true; };
template<int I> struct Flat { int64_t v; int32_t w[I + 1]; static Flat mk(int64_t x) { Flat f{}; f.v = x; for(int i = 0; i <= I; i++) f.w[i] = (int32_t)(x + i); return f; } bool ok(int64_t x) const { for(int i = 0; i <= I; i++) if(w[i] != (int32_t)(x + i)) return false; return v == x; } static constexpr int tag = I; static constexpr bool trk = false; };
template<int I> struct Cp { Cpy c; explicit Cp(int64_t v) : c(v) {} Cp(const Cp&) = default; Cp(Cp&&) = default; Cp& operator=(Cp&&) = default; static Cp mk(int64_t v) { return Cp(v); } bool ok(int64_t v) const { return c.get() == v; } static constexpr int tag = I; static constexpr bool trk = true; };

template<typename... Ts> struct VD {
    using V = Variant<Ts...>; static constexpr int N = sizeof...(Ts);
    template<int K> static V make_at(int k, int64_t v) { if constexpr(K + 1 < N) { if(k != K) return make_at<K + 1>(k, v); } using T = Choose<K, Ts...>; return V{T::mk(v)}; }
    static V make(int k, int64_t v) { return make_at<0>(k, v); }
    static bool trk(int k) { bool t[] = {Ts::trk...}; return t[k]; }
    static bool is(V& x, int k, int64_t v, const char* op) {
        mon::eval(); const V& c = x;
        if(c.index() != k) { mon::violation("variant.index", "%d alternatives: index %d expected %d after %s", N, c.index(), k, op); return false; }
        int calls = 0; int tags[] = {Ts::tag...};
        int t1 = x.match(Overload{[&](Ts& a) -> int { calls++; return a.ok(v) ? Ts::tag : -100 - Ts::tag; }...});
        int t2 = c.match(Overload{[&](const Ts& a) -> int { calls++; return a.ok(v) ? Ts::tag : -100 - Ts::tag; }...});
        if(t1 != tags[k] || t2 != tags[k] || calls != 2) { mon::violation("variant.match", "%d alternatives: match reached %d/%d (%d calls), expected %d with value %lld after %s", N, t1, t2, calls, tags[k], (long long)v, op); return false; }
        return true;
    }
    static void history(mon::Rng& r, int nops) {
        {
            struct S { int k; int64_t v; bool hollow; }; S m[3]; uint64_t h = (uint64_t)N; std::string tr;
            for(auto& s : m) s = {(int)r(N), (int64_t)r(90) + 1, false};
            V x[3] = {make(m[0].k, m[0].v), make(m[1].k, m[1].v), make(m[2].k, m[2].v)};
            for(int o = 0; o < nops; o++) {
                int i = (int)r(3), j = (int)r(3), op = (int)r(8), k = (int)r(N); int64_t v = (int64_t)r(90) + 1; const char* n = "?"; mon::ctx("Variant of %d step %d op %d (%d<-%d alt %d)", N, o, op, i, j, k);
                h = mon::mix(h, (uint64_t)(op * 256 + k * 16 + i * 4 + j)); if(o < 10) tr += mon::fmt("%d:%d%d/%d ", op, i, j, k);
                switch(op) {
                case 0: case 1: n = "assign"; x[i] = make(k, v); m[i] = {k, v, false}; break;
                case 2: n = "move-assign"; if(i != j && !m[j].hollow) { x[i] = move(x[j]); m[i] = m[j]; m[j].hollow = trk(m[j].k); if(x[j].index() != m[j].k) {} } break;
                case 3: n = "move-construct"; if(!m[j].hollow) { V t{move(x[j])}; if(!is(t, m[j].k, m[j].v, n)) return; x[j] = move(t); } break;
                case 4: n = "clone"; if(i != j && !m[j].hollow) { if constexpr(((Clone<Ts> || Copy_Constructable<Ts>) && ...)) { x[i] = x[j].clone(); m[i] = m[j]; } } break;
                case 5: n = "rvalue match"; if(!m[i].hollow) { int tags[] = {Ts::tag...}; int t = move(x[i]).match(Overload{[&](Ts&& a) -> int { Ts taken(move(a)); return taken.ok(m[i].v) ? Ts::tag : -1; }...}); MON_CHECK(t == tags[m[i].k], "variant.match", "rvalue match reached %d expected %d", t, tags[m[i].k]); x[i] = make(k, v); m[i] = {k, v, false}; } break;
                case 6: n = "swap"; if(!m[i].hollow && !m[j].hollow && i != j) { swap(x[i], x[j]); std::swap(m[i], m[j]); } break;
                case 7: n = "mutate"; if(!m[i].hollow) { x[i].match(Overload{[&](Ts& a) -> int { a = Ts::mk(v); return 0; }...}); m[i].v = v; } break;
                }
                int64_t live = 0;
                for(int z = 0; z < 3; z++) if(!m[z].hollow) { if(!is(x[z], m[z].k, m[z].v, n)) return; live += trk(m[z].k); }
                if(mon::reg().live_now() != live) { mon::violation("variant.live", "%d alternatives: %lld live objects expected %lld after %s", N, (long long)mon::reg().live_now(), (long long)live, n); return; }
            }
            mon::distinct(h); mon::sample(mon::fmt("Variant of %d: %s", N, tr.c_str()));
        }
        mon::reg().case_end("Variant history");
    }
};
template<typename F> struct Slot { F f; int kind; int64_t v; };
static int64_t g_sum; static int g_calls;
// Callables of every storage shape; each checks the arguments it is given.
using Fn = Function<int64_t(int64_t, const Trk&, int&, Trk)>;
static Fn make_fn(int kind, int64_t v) {
    auto body = [](int64_t tag, int64_t a, const Trk& b, int& c, Trk d) -> int64_t { g_calls++; c += 1; return tag * 1000000 + a * 10000 + b.get() * 100 + d.get(); };
    switch(kind) {
    case 0: return Fn([=](int64_t a, const Trk& b, int& c, Trk d) -> int64_t { return body(v, a, b, c, move(d)); });
    case 1: return Fn([t = Trk(v), body](int64_t a, const Trk& b, int& c, Trk d) -> int64_t { return body(t.get(), a, b, c, move(d)); });
    case 2: return Fn([t = Cpy(v), u = Trk(v + 1), body](int64_t a, const Trk& b, int& c, Trk d) -> int64_t { return body(t.get() == u.get() - 1 ? t.get() : -1, a, b, c, move(d)); });
    case 3: { struct Big { int64_t x[4]; }; Big g{{v, v + 1, v + 2, v + 3}}; return Fn([g](int64_t a, const Trk& b, int& c, Trk d) -> int64_t { g_calls++; c += 1; bool ok = g.x[1] == g.x[0] + 1 && g.x[2] == g.x[0] + 2 && g.x[3] == g.x[0] + 3; return (ok ? g.x[0] : -1) * 1000000 + a * 10000 + b.get() * 100 + d.get(); }); }
    case 4: { struct alignas(16) Al { int64_t x; int64_t y; }; Al g{v, -v}; return Fn([g](int64_t a, const Trk& b, int& c, Trk d) -> int64_t { g_calls++; c += 1; bool ok = (uintptr_t)&g % 16 == 0 && g.y == -g.x; return (ok ? g.x : -1) * 1000000 + a * 10000 + b.get() * 100 + d.get(); }); }
    case 5: return Fn([t = Trk(v), p = Box<Trk>(v), body](int64_t a, const Trk& b, int& c, Trk d) -> int64_t { return body((*p).get() == t.get() ? t.get() : -1, a, b, c, move(d)); });
    case 6: return Fn([n = Trk(0), v](int64_t a, const Trk& b, int& c, Trk d) mutable -> int64_t { g_calls++; c += 1; n.set(n.get() + 1); return v * 1000000 + a * 10000 + b.get() * 100 + d.get() + (n.get() <= 0 ? -1 : 0); });
    default: { String<> s = "some captured text"_v.string(); return Fn([s = move(s), v](int64_t a, const Trk& b, int& c, Trk d) -> int64_t { g_calls++; c += 1; return (s == "some captured text"_v ? v : -1) * 1000000 + a * 10000 + b.get() * 100 + d.get(); }); }
    }
}
static int tracked_of(int kind) { static const int t[] = {0, 1, 2, 0, 0, 2, 1, 0}; return t[kind]; }
static void functions(mon::Rng& r, int nops) {
    {
        struct M { int kind; int64_t v; bool empty; } m[4]; uint64_t h = 99; for(auto& s : m) s = {(int)r(8), (int64_t)r(90) + 1, false};
        Fn f[4] = {make_fn(m[0].kind, m[0].v), make_fn(m[1].kind, m[1].v), make_fn(m[2].kind, m[2].v), make_fn(m[3].kind, m[3].v)};
        for(int o = 0; o < nops; o++) {
            int i = (int)r(4), j = (int)r(4), op = (int)r(5), k = (int)r(8); int64_t v = (int64_t)r(90) + 1; mon::ctx("Function step %d op %d %d %d kind %d", o, op, i, j, k); h = mon::mix(h, (uint64_t)(op * 256 + k * 16 + i * 4 + j));
            switch(op) {
            case 0: f[i] = make_fn(k, v); m[i] = {k, v, false}; break;
            case 1: if(i != j) { f[i] = move(f[j]); m[i] = m[j]; m[j].empty = true; } break;
            case 2: { Fn t(move(f[j])); f[j] = move(t); break; }
            case 3: swap(f[i], f[j]); if(i != j) std::swap(m[i], m[j]); break;
            case 4: if(!m[i].empty) { int64_t a = (int64_t)r(90); int64_t bv = (int64_t)r(90), dv = (int64_t)r(90); Trk b(bv); int c = 5; g_calls = 0; int64_t got = f[i](a, b, c, Trk(dv)); int64_t want = m[i].v * 1000000 + a * 10000 + bv * 100 + dv; mon::eval();
                if(got != want || g_calls != 1 || c != 6 || b.get() != bv) { mon::violation("function.call", "kind %d: got %lld expected %lld, %d calls, ref arg %d", m[i].kind, (long long)got, (long long)want, g_calls, c); return; } } break;
            }
            int64_t live = 0; for(auto& s : m) if(!s.empty) live += tracked_of(s.kind); mon::eval();
            if(mon::reg().live_now() != live) { mon::violation("function.live", "%lld captured objects alive expected %lld after op %d", (long long)mon::reg().live_now(), (long long)live, op); return; }
        }
        mon::distinct(h);
    }
    mon::reg().case_end("Function history");
}
static void shapes() { // argument and result categories
    int x = 1; Function<int&(int&)> ref([](int& a) -> int& { a++; return a; }); int& y = ref(x); MON_CHECK(&y == &x && x == 2, "function.ref", "reference result");
    Function<Trk(Trk&&)> mv([](Trk&& a) -> Trk { return Trk(a.get() + 1); }); { Trk in(4); Trk out = mv(move(in)); MON_CHECK(out.get() == 5 && in.get() == 4, "function.rvalue", "rvalue argument"); }
    Function<void()> none([&] { g_sum += 3; }); g_sum = 0; (void)none, none(); MON_CHECK(g_sum == 3, "function.void", "void call");
    FunctionN<1, int()> small([x]() -> int { return x; }); MON_CHECK(small() == 2, "function.small", "one word"); FunctionN<1, int()> small2(move(small)); MON_CHECK(small2() == 2, "function.small", "one word moved");
    { struct Huge { int64_t a[15]; }; Huge g; for(int i = 0; i < 15; i++) g.a[i] = i * i; FunctionN<16, int64_t(int)> big([g, t = 1](int i) -> int64_t { return g.a[i] + t; }); FunctionN<16, int64_t(int)> big2(move(big)); for(int i = 0; i < 15; i++) MON_CHECK(big2(i) == i * i + 1, "function.big", "capture word %d", i); }
    { Function<Box<Trk>(Box<Trk>)> pass([](Box<Trk> b) -> Box<Trk> { return b; }); Box<Trk> b(7); b = pass(move(b)); MON_CHECK(b.ok() && b->get() == 7, "function.move-only", "box through a function"); }
    { Function<Function<int()>(int)> hof([](int n) -> Function<int()> { return Function<int()>([n]() -> int { return n * 2; }); }); auto g = hof(21); MON_CHECK(g() == 42, "function.hof", "function returning function"); }
    { Vec<Function<int()>> v; for(int i = 0; i < 100; i++) v.push(Function<int()>([i, t = Trk(i)]() -> int { return i == t.get() ? i : -1; })); for(int i = 0; i < 100; i++) MON_CHECK(v[(u64)i]() == i, "function.vec", "function %d in a grown Vec", i); }
    { Function<int()> outer([inner = Box<Function<int()>>(Function<int()>([t = Trk(9)]() -> int { return (int)t.get(); }))]() mutable -> int { return (*inner)(); }); Function<int()> o2(move(outer)); MON_CHECK(o2() == 9, "function.nested", "nested"); }
    mon::eval(20); mon::reg().case_end("Function shapes");
    using NV = Variant<Named<"first", int>, Named<"second", int>>; for(int i = 0; i < 2; i++) { NV n = i ? NV{Named<"second", int>{4}} : NV{Named<"first", int>{3}}; int got = n.match(Overload{[](Named<"first", int>& a) { return a.value * 10; }, [](Named<"second", int>& b) { return b.value * 100; }}); MON_CHECK(got == (i ? 400 : 30) && n.index() == i, "variant.named", "named alternative %d gave %d", i, got); NV c = n.clone(); MON_CHECK(c.index() == i, "variant.named", "clone index"); }
}
struct VNil { Trk t; int64_t pad = 7; explicit VNil(int64_t v) : t(v) {} };
struct VCons; using VList = Variant<VNil, Box<VCons>>;
struct VCons { Trk t; VList tail; VCons(int64_t v, VList&& l) : t(v), tail(move(l)) {} };
static void lists(mon::Rng& r) { // a Variant replaced by one its own alternative owns
    {
        VList l{VNil(-1)}; std::vector<int64_t> m;
        for(int o = 0; o < 120; o++) {
            int op = (int)r(6); mon::ctx("Variant list step %d op %d", o, op);
            auto at = [&](size_t k) { VList* p = &l; for(size_t i = 0; i < k; i++) p = p->match(Overload{[](VNil&) -> VList* { return nullptr; }, [](Box<VCons>& c) -> VList* { return &c->tail; }}); return p; };
            if(op < 3 || m.empty()) { size_t k = r(m.size() + 1); int64_t v = (int64_t)r(1000); VList* p = at(k); VList t{move(*p)}; *p = VList{Box<VCons>(v, move(t))}; m.insert(m.begin() + (long)k, v); }
            else if(op < 5) { size_t k = r(m.size()), d = 1 + r(m.size() - k); VList *p = at(k), *q = at(k + d); *p = move(*q); m.erase(m.begin() + (long)k, m.begin() + (long)(k + d)); } // cut out d nodes
            else { VList& same = *at(r(m.size() + 1)); same = move(same); continue; }
            std::vector<int64_t> got; VList* p = &l; bool end = false;
            while(!end) p = p->match(Overload{[&](VNil& e) -> VList* { end = true; got.push_back(e.t.get() + (e.pad - 7)); return nullptr; }, [&](Box<VCons>& c) -> VList* { got.push_back(c->t.get()); return &c->tail; }});
            auto want = m; want.push_back(-1); mon::eval();
            if(got != want || mon::reg().live_now() != (int64_t)want.size()) { mon::violation("variant.owned-replace", "after op %d the list has %zu entries and %lld live objects, expected %zu", op, got.size(), (long long)mon::reg().live_now(), want.size()); return; }
        }
        mon::distinct(mon::mix(r.next(), 8));
    }
    mon::reg().case_end("Variant list");
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C07", "random histories over 3 Variants (1..12 alternatives of mixed size, alignment and triviality) and 4 Functions of eight capture shapes; distinct by operation sequence");
    mon::Rng r(mon::S().seed); uint64_t n = mon::n(400, 8000);
    if(mon::want("variant")) for(uint64_t i = 0; i < n; i++) {
        int k = 20 + (int)r(100);
        VD<Alt<0, 8>>::history(r, k); VD<Alt<0, 8>, Flat<1>>::history(r, k); VD<Flat<0>, Flat<1>, Flat<5>>::history(r, k); VD<Alt<0, 8>, Alt<1, 40>, Cp<2>, Flat<3>>::history(r, k);
        VD<Cp<0>, Alt<1, 1, 16>, Alt<2, 3>, Flat<3>, Cp<4>, Alt<5, 7>, Alt<6, 9>, Flat<7>>::history(r, k);                                                         // eight: branches
        VD<Cp<0>, Alt<1, 1, 16>, Alt<2, 3>, Flat<3>, Cp<4>, Alt<5, 7>, Alt<6, 9>, Flat<7>, Alt<8, 70>>::history(r, k);                                             // nine: table
        VD<Flat<0>, Flat<1>, Flat<2>, Flat<3>, Flat<4>, Flat<5>, Flat<6>, Flat<7>, Flat<8>, Flat<9>, Flat<10>, Flat<11>>::history(r, k);
        VD<Alt<0, 1>, Flat<1>, Alt<2, 3>, Flat<3>, Cp<4>>::history(r, k); VD<Cp<0>, Cp<1>, Cp<2>>::history(r, k); VD<Cp<0>, Flat<1>, Cp<2>, Alt<3, 4>, Alt<4, 2>, Alt<5, 3>>::history(r, k); VD<Flat<0>, Alt<1, 8>, Cp<2>, Alt<3, 4>, Alt<4, 2>, Flat<5>, Alt<6, 3>>::history(r, k);
    }
    if(mon::want("function")) for(uint64_t i = 0; i < n * 4; i++) functions(r, 20 + (int)r(100));
    if(mon::want("lists")) for(uint64_t i = 0; i < n / 2; i++) lists(r);
    if(mon::want("shapes")) shapes();
    mon::count("objects_constructed", mon::reg().made); mon::count("objects_destroyed", mon::reg().destroyed);
    return mon::finish();
}
