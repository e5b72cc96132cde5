// C14: format() / concat() against an independent renderer built from public accessors.
#include "c14.h"
void types1(Rng& r, u64 k);
void types2(Rng& r, u64 k);
void names(Rng& r, u64 times);
static void ints(u64 times, Rng& r) {
    auto all = [&](auto z) {
        using T = decltype(z);
        for(int b = 0; b < (int)sizeof(T) * 8; b++)
            for(int d = -2; d <= 2; d++) { T v = (T)(((u64)1 << b) + (u64)(i64)d); check(r, v); T w = (T)(0 - (u64)v); check(r, w); }
    };
    all(i8{}); all(u8{}); all(i16{}); all(u16{}); all(i32{}); all(u32{}); all(i64{}); all(u64{});
    for(int c = 0; c < 256; c++) { check(r, (i8)c); check(r, (u8)c); check(r, (char)c); }
    for(u64 i = 0; i < times; i++) check(r, gen<i64>(r), gen<u64>(r), gen<i32>(r));
}
static void mixed(Rng& r, u64 times) {
    for(u64 i = 0; i < times; i++) {
        check(r, gen<i32>(r), gen<String<>>(r));
        check(r, gen<Vec<String<>>>(r), gen<bool>(r), gen<f64>(r), gen<Opt<i64>>(r));
        check(r, gen<String_View>(r), gen<String_View>(r), gen<String_View>(r), gen<char>(r), gen<u8>(r), gen<Colour>(r));
        i32 x = gen<i32>(r);
        Ref<i32> rx{x}, rn;
        check(r, rx, rn, null);
        Rc<i32> rc{x}; auto d = rc.dup(); auto d2 = d.dup();
        check(r, rc, d);
        Arc<i32> ac{x}; auto e = ac.dup();
        check(r, ac, e);
        i32 arr[4] = {gen<i32>(r), x, 0, -1};
        check(r, arr);
        i32 backing[3] = {x, 1, 2};
        Slice<const i32> sl{backing, r(4)};
        check(r, sl);
        pool.clear();
    }
    // no arguments: the text itself with %% halved
    for(u64 i = 0; i < times; i++) {
        string f = gfmt(r, 0);
        auto o = format<Mdefault>(view(f));
        MON_CHECK(take(o) == subst(f, {}) && format_length(view(f)) == o.length(), "format.text", "no-argument format of \"%s\"", show(f).c_str());
        mon::eval();
    }
}
static void concats(Rng& r, u64 times) {
    for(u64 i = 0; i < times; i++) {
        string sep = r.chance(30) ? "" : r.chance(50) ? ", " : gstr(r), a = gstr(r), b = gstr(r), c = gstr(r), d = gstr(r);
        if(r.chance(30)) c = ""; if(r.chance(30)) d = ""; if(r.chance(20)) a = ""; if(r.chance(20)) b = "";
        mon::ctx("concat sep %s", show(sep).c_str());
        auto eq = [&](const string& got, const string& want) { mon::eval(); MON_CHECK(got == want, "format.concat", "got %s expected %s", show(got).c_str(), show(want).c_str()); };
        eq(take(concat<Mdefault>(view(sep))), "");
        eq(take(concat<Mdefault>(view(sep), view(a))), a);
        eq(take(concat<Mdefault>(view(sep), view(a), view(b).string())), a + sep + b);
        eq(take(concat<Mdefault>(view(sep), view(a), view(b), view(c))), a + sep + b + sep + c);
        eq(take(concat<Mdefault>(view(sep), view(a).string(), view(b), view(c), view(d))), a + sep + b + sep + c + sep + d);
    }
}
#define T(...) type<__VA_ARGS__>(r, #__VA_ARGS__, k)
int main(int argc, char** argv) {
    mon::init(argc, argv, "C14", "hash of one formatted text (type, value and format string together)");
    Rng r(mon::S().seed);
    u64 k = mon::n(1500, 40000);
    if(mon::want("ints")) ints(mon::n(2000, 100000), r);
    if(mon::want("types")) {
        T(i8); T(u16); T(i64); T(f64); T(String_View); T(const u8*); T(Vec<Vec<Vec<u8>>>); T(Queue<i16>); T(Heap<String<>>); T(Array<String_View, 7>); T(Map<String<>, Vec<i32>>);
        T(Pair<i32, f32>); T(Opt<Vec<String<>>>); T(Box<Vec<i32>>); T(Rc<String<>>); T(Tuple<>); T(Tuple<Vec<i32>, Opt<u8>, bool, Pair<i32, i32>>);
        T(Variant<Named<"One", i32>, Named<"Two", i32>>); T(Math::Vec4); T(Math::Vec2i); T(Math::Vec2u); T(Math::VecNi<7>); T(Math::Quat); T(Colour); T(Outer); T(One);
        types1(r, k); types2(r, k);
    }
    if(mon::want("names")) names(r, mon::n(1500, 40000));
    if(mon::want("mixed")) mixed(r, mon::n(6000, 200000));
    if(mon::want("long")) { // format strings, texts and containers of up to tens of thousands of bytes
        g_long = true;
        for(u64 i = 0, N = mon::n(60, 2000); i < N && !mon::violations(); i++) {
            check(r, gen<i32>(r), gen<String<>>(r));
            check(r, gen<Vec<String<>>>(r), gen<bool>(r), gen<f64>(r), gen<Opt<i64>>(r));
            check(r, gen<String_View>(r), gen<String_View>(r), gen<String_View>(r), gen<char>(r), gen<u8>(r), gen<Colour>(r));
            string f = gfmt(r, 0);
            auto o = format<Mdefault>(view(f));
            MON_CHECK(take(o) == subst(f, {}) && format_length(view(f)) == o.length(), "format.text", "no-argument format of \"%s\"", show(f).c_str());
            pool.clear();
        }
        if(!mon::violations()) concats(r, 200);
        g_long = false;
    }
    if(mon::want("concat")) concats(r, mon::n(20000, 500000));
    return mon::finish();
}
