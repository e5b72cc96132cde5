// C14: type names, and values that show only their type.
#include "c14.h"
template<typename T> static void type_name() {
    auto got = format_typename<T>();
    string want = tn<T>();
    mon::eval();
    mon::distinct(mon::hstr("type name " + want));
    MON_CHECK(take(got) == want, "format.typename", "a type is named %s, expected %s", show(take(got)).c_str(), show(want).c_str());
    Region(Rg) { auto again = format_typename<T, Mregion<Rg>>(); MON_CHECK(take(again) == want, "format.typename", "a type is named %s, expected %s, in a region", show(take(again)).c_str(), show(want).c_str()); }
}
template<typename T> static void type_names() { // and what is composed of it
    type_name<T>(); type_name<T&>(); type_name<T&&>(); type_name<T*>(); type_name<const T&>(); type_name<const T*>(); type_name<volatile T>(); type_name<const volatile T>();
    type_name<const volatile T&>(); type_name<const T&&>(); type_name<T**>(); type_name<T[1]>(); type_name<T[12345]>(); type_name<T(*)[7]>();
    type_name<Vec<T>>(); type_name<Opt<T>>(); type_name<const Vec<T>&>(); type_name<Vec<Vec<T, Mhidden>>>(); type_name<Box<T>>(); type_name<Rc<Vec<T>>>(); type_name<Arc<T>>(); type_name<Ref<T>>();
    type_name<Slice<T>>(); type_name<Slice<const T>>(); type_name<Stack<T>>(); type_name<Queue<T>>(); type_name<Storage<T>>(); type_name<Array<T, 4>>(); type_name<Array<Array<T, 2>, 100>>();
    type_name<Map<i32, T>>(); type_name<Map<String<>, Map<u8, T>, Mhidden>>(); type_name<Pair<T, u8>>(); type_name<Pair<u8, Pair<T, T>>>(); type_name<Tuple<T>>(); type_name<Tuple<T, Vec<T>, bool, Opt<T>>>();
    type_name<Variant<T, Vec<T>>>(); type_name<Variant<Named<"One", T>, Named<"Two", T>>>(); type_name<Function<T()>>(); type_name<Function<void(T)>>(); type_name<Function<Vec<T>(T, const T&, T*, Function<T(T)>)>>();
    type_name<Tuple<>>(); type_name<Vec<Tuple<>>>(); type_name<Function<void()>>(); type_name<Function<Function<void(u8)>(Tuple<>)>>(); type_name<void>(); type_name<decltype(null)>();
}
void names(Rng& r, u64 times) {
    type_names<i32>(); type_names<String<>>(); type_names<Outer>(); type_name<Heap<i32>>(); type_name<Heap<String<>, Mhidden>>(); type_name<Colour>(); type_name<Math::Mat4>(); type_name<Hollow>(); type_name<u8>(); type_name<f64>(); type_name<Outer>(); type_name<One>();
    type_name<Log::Level>(); type_name<Log::Location>(); type_name<Thread::Atomic>(); type_name<Reflect::Kind>(); type_name<Thread::Priority>(); type_name<Big>(); type_name<Inner>(); type_name<WithArr>();
    type_name<Math::Quat>(); type_name<Math::BBox>(); type_name<i8>(); type_name<i16>(); type_name<u16>(); type_name<u32>(); type_name<i64>(); type_name<u64>(); type_name<f32>(); type_name<bool>(); type_name<char>(); type_name<String_View>(); type_name<String<Mhidden>>();
    for(u64 i = 0; i < times; i++) {
        check(r, Function<void()>{[]() {}}, Storage<i32>{});
        check(r, Function<i32(i32)>{[](i32 x) { return x; }}, gen<u8>(r), Storage<Outer>{}, Storage<Math::Quat>{});
        check(r, Function<String<>(Vec<i32>, const i32&, f32*, Function<void(u8, Tuple<>)>)>{[](Vec<i32>, const i32&, f32*, Function<void(u8, Tuple<>)>) { return String<>{}; }}, gen<String_View>(r));
        Vec<Function<void(Colour, Opt<u8>)>> fs;
        for(u64 n = r(5); n; n--) fs.push(Function<void(Colour, Opt<u8>)>{[](Colour, Opt<u8>) {}});
        check(r, fs, gen<bool>(r));
        Thread::Atomic a{gen<i64>(r)};
        check(r, a);
        check(r, Log::Location{gen<String_View>(r), gen<String_View>(r), gen<u64>(r)}, (Log::Level)r(3));
        pool.clear();
    }
}
