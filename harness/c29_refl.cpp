// C29: reflection of a generated program (gen_refl.py writes the declarations together with what they say) and of the
// library's own reflected types. Compiled once per PART (c29_partN.cpp): the generated program is spread over them.
#include "mon.h"
#include <set>
#include <rpp/base.h>
#include <rpp/array.h>
#include <rpp/asyncio.h>
#include <rpp/box.h>
#include <rpp/function.h>
#include <rpp/heap.h>
#include <rpp/map.h>
#include <rpp/pool.h>
#include <rpp/queue.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/storage.h>
#include <rpp/thread.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
#include <rpp/vec.h>
#include <rpp/vmath.h>
using namespace rpp;
using mon::Rng;
using std::string;

template<typename T> inline const void* type_tag() { static char tag; return &tag; }
struct Seen {
    string name; const void* at; const void* type; size_t size, align = 1;
    bool operator==(const Seen& o) const { return name == o.name && at == o.at && type == o.type && size == o.size; }
};
template<typename T> struct Fill;
template<typename T> struct Model { };
template<typename S> static string take(const S& s) { return string((const char*)s.data(), s.length()); }
template<typename T> static string shown(const T& t) { return take(format<Mdefault>("%"_v, t)); }

static i32 pointee = 42;
template<typename T> static void refill(T& t, Rng& r) {
    if constexpr(requires { Model<T>::name; }) Model<T>::fill(t, r);
    else if constexpr(std::is_same_v<T, bool>) t = r.chance(50);
    else if constexpr(std::is_same_v<T, char>) t = (char)(32 + r(90));
    else if constexpr(std::is_floating_point_v<T>) t = (T)((double)(int64_t)r.next() / 4096.0);
    else if constexpr(std::is_integral_v<T>) t = r.chance(20) ? (T)0 : r.chance(20) ? std::numeric_limits<T>::max() : (T)r.next();
    else if constexpr(std::is_enum_v<T>) t = r.chance(20) ? (T)0 : (T)(int)r(5);
    else if constexpr(std::is_pointer_v<T>) t = r.chance(30) ? nullptr : (T)(void*)&pointee;
    else if constexpr(std::is_same_v<T, String_View>) t = r.chance(30) ? ""_v : r.chance(50) ? "view"_v : "% {}, : "_v;
    else if constexpr(std::is_same_v<T, String<>>) t = r.chance(30) ? String<>{} : "owned"_v.string<Mdefault>();
    else if constexpr(std::is_same_v<T, Vec<i32>> || std::is_same_v<T, Vec<u8>>) { t.clear(); for(u64 n = r(4); n; n--) { auto x = r(200); t.push((Decay<decltype(t[0])>)x); } }
}
template<typename T, size_t N> static void refill(T (&t)[N], Rng& r) { for(auto& x : t) refill(x, r); }

template<typename A, typename B> constexpr bool same = std::is_same_v<A, B>;

// ---- visitors
struct Recorder {
    std::vector<Seen>* seen;
    template<Reflectable T> void apply(const Literal& name, const T& f) { seen->push_back({string(name.c_string), (const void*)&f, type_tag<T>(), sizeof(f), alignof(T)}); }
};
struct Recorder_Exact { // the visitor names the type it is given, const or not
    std::vector<Seen>* seen;
    template<typename T> void apply(const Literal& name, std::remove_reference_t<T>& f) { seen->push_back({string(name.c_string), (const void*)&f, type_tag<std::remove_reference_t<T>>(), sizeof(f)}); }
};
struct Counter { // carries its state itself
    u64 n = 0;
    u64 hash = 0;
    template<Reflectable T> void apply(const Literal& name, const T& f) { n++; hash = mon::mix(hash, mon::hstr(name.c_string)); }
};
struct Mutator {
    Rng* r;
    std::vector<string>* out;
    template<Reflectable T> void apply(const Literal& name, T& f) { if constexpr(!std::is_const_v<std::remove_all_extents_t<T>>) refill(f, *r); out->push_back(shown(f)); }
    template<Reflectable T> void apply(const Literal& name, const T& f) { out->push_back(shown(f)); }
};
static string names(const std::vector<Seen>& v) { string s; for(auto& x : v) s += x.name + " "; return s; }

template<typename T> static void check_record(Rng& r, u64 rounds) {
    using M = Model<T>;
    using R = Reflect::Refl<T>;
    mon::ctx("record %s", M::name);
    MON_CHECK(string(R::name.c_string) == M::name, "refl.record-name", "reflected as %s", R::name.c_string);
    MON_CHECK(R::kind == Reflect::Kind::record_, "refl.kind", "%s is not a record", M::name);
    for(u64 k = 0; k < rounds; k++) {
        T* t = new T{};
        M::fill(*t, r);
        auto want = M::fields(*t);
        MON_CHECK(Reflect::List_Length<typename R::members> == want.size(), "refl.count", "%s lists %llu fields of %zu", M::name, (unsigned long long)Reflect::List_Length<typename R::members>, want.size());
        std::vector<Seen> seen;
        Recorder lv{&seen};
        Reflect::iterate_record(lv, (const T&)*t);
        // types are seen without their const here (deduction from const T&): compare names, places and sizes
        bool ok = seen.size() == want.size();
        for(size_t i = 0; i < seen.size() && ok; i++) ok = seen[i].name == want[i].name && seen[i].at == want[i].at && seen[i].size == want[i].size;
        MON_CHECK(ok, "refl.record", "%s visited [%s], declared [%s]", M::name, names(seen).c_str(), names(want).c_str());
        seen.clear();
        Reflect::iterate_record(Recorder_Exact{&seen}, *t);
        MON_CHECK(seen == want, "refl.record", "%s visited [%s] declared [%s] (or other types or places)", M::name, names(seen).c_str(), names(want).c_str());
        Counter c;
        Reflect::iterate_record(c, *t);
        Reflect::iterate_record(c, (const T&)*t);
        u64 h = 0;
        for(int i = 0; i < 2; i++) for(auto& s : want) h = mon::mix(h, mon::hstr(s.name.c_str()));
        MON_CHECK(c.n == 2 * want.size() && c.hash == h, "refl.visitor-state", "%s: a visitor with state of its own saw %llu fields in two passes over %zu", M::name, (unsigned long long)c.n, want.size());
        // writing through the visited references changes the object
        std::vector<string> parts;
        Reflect::iterate_record(Mutator{&r, &parts}, *t);
        string text = string(M::name) + "{";
        for(size_t i = 0; i < parts.size(); i++) text += (i ? ", " : "") + want[i].name + " : " + parts[i];
        text += "}";
        MON_CHECK(text == M::text(*t), "refl.reference", "%s: what was written through the visitor is %s, the object holds %s", M::name, text.c_str(), M::text(*t).c_str());
        MON_CHECK(shown(*t) == text, "refl.format", "%s formats as %s, its fields as %s", M::name, shown(*t).c_str(), text.c_str());
        MON_CHECK(format_length("%"_v, *t) == text.size(), "refl.format", "%s measures %llu", M::name, (unsigned long long)format_length("%"_v, *t));
        mon::distinct(mon::hstr(text.c_str()));
        mon::eval(6);
        mon::count("fields_visited", want.size() * 5);
        delete t;
    }
    MON_CHECK(take(format_typename<T>()) == M::tname, "refl.typename", "%s is named %s", M::tname, take(format_typename<T>()).c_str());
    MON_CHECK(Reflect::Record<T> && Reflectable<T>, "refl.concept", "%s is not a Record", M::name);
}
template<typename E, typename U> static void check_enum(const char* name, const char* cpp, std::vector<std::pair<string, U>> cases, size_t def) {
    using R = Reflect::Refl<E>;
    mon::ctx("enum %s", cpp);
    MON_CHECK(string(R::name.c_string) == name, "refl.enum-name", "%s reflected as %s", name, R::name.c_string);
    MON_CHECK((R::kind == Reflect::Kind::enum_ && same<typename R::underlying, U>), "refl.kind", "%s is not an enum of its type", name);
    MON_CHECK(R::default_ == (E)cases[def].second, "refl.default", "%s has another default", name);
    MON_CHECK(take(format_typename<E>()) == name, "refl.typename", "%s named %s", name, take(format_typename<E>()).c_str());
    MON_CHECK(Reflect::Enum<E>, "refl.concept", "%s is not an Enum", name);
    std::vector<std::pair<string, U>> seen;
    Reflect::iterate_enum<E>([&](const Literal& n, const E& v) { seen.push_back({string(n.c_string), (U)v}); });
    MON_CHECK(seen == cases, "refl.enum", "%s visited %zu cases of %zu (or others)", name, seen.size(), cases.size());
    u64 counted = 0;
    auto counter = [n = u64(0), &counted](const Literal&, E) mutable { counted = ++n; };
    Reflect::iterate_enum<E>(counter);
    Reflect::iterate_enum<E>(counter);
    MON_CHECK(counted == 2 * cases.size(), "refl.visitor-state", "%s: a counting visitor saw %llu", name, (unsigned long long)counted);
    auto one = [&](U v) {
        std::vector<string> want; // several enumerators may share a value
        for(auto& [n, x] : cases) if(x == v) want.push_back(n);
        E e = (E)v;
        string en = Format::enum_name(e).c_string, text = shown(e), list;
        for(auto& n : want) list += n + " ";
        auto among = [&](const string& n) { return want.empty() ? n == "" : std::find(want.begin(), want.end(), n) != want.end(); };
        MON_CHECK(want.empty() ? en == "Invalid" : among(en), "refl.enum-name-of", "%s value %lld is named %s, declared %s", name, (long long)v, en.c_str(), list.c_str());
        MON_CHECK(text.compare(0, strlen(name) + 2, string(name) + "::") == 0 && among(text.substr(strlen(name) + 2)) && format_length("%"_v, e) == text.size(), "refl.enum-format", "%s value %lld formats as %s, declared %s", name, (long long)v, text.c_str(), list.c_str());
        for(auto& n : want) {
            string in = "  " + n + " rest";
            auto p = Format::parse_enum<E>(String_View{(const u8*)in.data(), in.size()});
            MON_CHECK(p.ok() && (*p).first == e && take((*p).second) == "rest", "refl.enum-parse", "%s does not parse back to %lld", n.c_str(), (long long)v);
        }
        mon::eval(2);
    };
    for(auto& [n, v] : cases) { one(v); one((U)((uint64_t)v + 1)); one((U)((uint64_t)v - 1)); mon::distinct(mon::hstr((string(cpp) + n).c_str())); }
    if(sizeof(U) == 1) for(int v = 0; v < 256; v++) one((U)v);
    for(auto& [n, v] : cases) for(string s : {n + "x", n.substr(0, n.size() - 1), string(name) + "::" + n, n + "\t", "::" + n}) {
        string token = s.substr(0, s.find('\t'));
        bool known = false;
        U val = 0;
        for(auto& [m, x] : cases) if(m == token) known = true, val = x;
        auto p = Format::parse_enum<E>(String_View{(const u8*)s.data(), s.size()});
        MON_CHECK(p.ok() == known && (!known || (*p).first == (E)val), "refl.enum-parse", "\"%s\" parses to %d as a %s", s.c_str(), p.ok(), name);
        mon::eval();
    }
}
// ---- type lists
struct Collect {
    std::vector<const void*>* out;
    template<typename T> void apply() { out->push_back(type_tag<T>()); }
};
struct Collect_Index {
    std::vector<u64>* out;
    template<typename T> void apply() { out->push_back(T::value); }
};
template<typename T> struct Not { template<typename U> constexpr static bool value = !std::is_same_v<T, U>; };
struct Pointers { template<typename U> constexpr static bool value = std::is_pointer_v<U>; };
template<typename... Ts> static void check_list() {
    using L = List<Ts...>;
    std::vector<const void*> want{type_tag<Ts>()...}, seen;
    mon::ctx("type list of %zu", want.size());
    MON_CHECK(Type_List<L> && Reflect::List_Length<L> == want.size(), "refl.list", "length %llu of %zu", (unsigned long long)Reflect::List_Length<L>, want.size());
    Collect c{&seen};
    Reflect::Iter<Collect, L>::apply(c);
    MON_CHECK(seen == want, "refl.list", "iterating a list of %zu visits %zu (or others)", want.size(), seen.size());
    std::vector<const void*> back(want.rbegin(), want.rend());
    seen.clear();
    Reflect::Iter<Collect, Reflect::Reverse<L>>::apply(Collect{&seen});
    MON_CHECK(seen == back, "refl.list", "the reverse of a list of %zu is wrong", want.size());
    MON_CHECK((Reflect::All<Pointers, L>) == (std::is_pointer_v<Ts> && ...) && (Reflect::All<Not<i32>, L>) == (!same<Ts, i32> && ...) && (Reflect::All<Not<Seen>, L>), "refl.list", "a predicate over a list of %zu does not hold for all of it exactly when it holds for each", want.size());
    MON_CHECK((same<Reflect::Reverse<Reflect::Reverse<L>>, L>), "refl.list", "reversing twice changes a list");
    std::vector<u64> idx, up;
    for(u64 i = 0; i < want.size(); i++) up.push_back(i);
    Reflect::Iter<Collect_Index, Reflect::Enumerate<Ts...>>::apply(Collect_Index{&idx});
    MON_CHECK(idx == up, "refl.list", "enumerating a list of %zu is wrong", want.size());
    mon::eval(4);
    mon::distinct(mon::mix(99, want.size()));
    mon::count("list_elements", want.size());
}
template<typename T> static void check_name(const char* want) {
    string got = take(format_typename<T>());
    mon::ctx("type name %s", want);
    MON_CHECK(got == want, "refl.typename", "%s is named %s", want, got.c_str());
    mon::eval();
    mon::distinct(mon::hstr(want));
}
#include "refl_gen.h"

#if PART == 0
// ---- the library's own
template<typename T> static std::vector<string> fields(const T& t, bool& inside) {
    std::vector<Seen> seen;
    Recorder c{&seen};
    Reflect::iterate_record(c, t);
    std::vector<string> out;
    const char* last = (const char*)&t - 1;
    for(auto& s : seen) {
        inside &= (const char*)s.at > last && (const char*)s.at + s.size <= (const char*)&t + sizeof(T);
        last = (const char*)s.at + s.size - 1;
        out.push_back(s.name);
    }
    mon::eval();
    mon::count("fields_visited", seen.size());
    return out;
}
template<typename T> static void lib(const T& t, const char* name, std::vector<string> want) {
    bool inside = true;
    auto got = fields(t, inside);
    string g;
    for(auto& s : got) g += s + " ";
    MON_CHECK(got == want, "refl.library", "%s lists [%s]", name, g.c_str());
    MON_CHECK(inside, "refl.library", "%s: a field is visited out of order or outside the object", name);
    MON_CHECK(string(Reflect::Refl<T>::name.c_string) == name, "refl.library", "%s is reflected as %s", name, Reflect::Refl<T>::name.c_string);
    mon::distinct(mon::hstr(name));
}
// Types with private fields: what they list must be the whole object, whatever the fields are called.
template<typename T> static void lib_private(const T& t, const char* name) {
    std::vector<Seen> seen;
    Recorder c{&seen};
    Reflect::iterate_record(c, t);
    std::set<string> ns;
    size_t at = 0;
    bool whole = !seen.empty();
    for(auto& s : seen) {
        size_t off = (size_t)((const char*)s.at - (const char*)&t);
        whole &= off >= at && off - at < s.align && off + s.size <= sizeof(T);
        at = off + s.size;
        ns.insert(s.name);
    }
    whole &= sizeof(T) - at < alignof(T);
    MON_CHECK(whole, "refl.library", "%s: its %zu reflected fields are not its object, in order", name, seen.size());
    MON_CHECK(ns.size() == seen.size() && !ns.count(""), "refl.library", "%s: fields share a name", name);
    MON_CHECK(string(Reflect::Refl<T>::name.c_string) == name, "refl.library", "%s is reflected as %s", name, Reflect::Refl<T>::name.c_string);
    mon::eval();
    mon::count("fields_visited", seen.size());
    mon::distinct(mon::hstr(name));
}
template<typename E> static void lib_enum(const char* name, std::vector<std::pair<string, E>> want) {
    using U = Underlying<E>;
    std::vector<std::pair<string, U>> c;
    for(auto& [n, v] : want) c.push_back({n, (U)v});
    size_t def = 0;
    for(size_t i = 0; i < want.size(); i++) if(want[i].second == Reflect::Refl<E>::default_) def = i;
    check_enum<E, U>(name, name, c, def);
}
template<typename T> static void prim(const char* name, Reflect::Kind k) {
    MON_CHECK(Reflect::Refl<T>::kind == k && Reflect::Refl<const T>::kind == k && Reflect::Refl<volatile T>::kind == k && string(Reflect::Refl<T>::name.c_string) == name, "refl.kind", "%s reflected as %s", name, Reflect::Refl<T>::name.c_string);
    if constexpr(!std::is_void_v<T>) {
        MON_CHECK(Reflect::Refl<T&>::kind == k && Reflect::Refl<T&&>::kind == k && Reflect::Refl<T[4]>::kind == Reflect::Kind::array_ && Reflect::Refl<T[4]>::length == 4 && (same<typename Reflect::Refl<T[4]>::underlying, T>), "refl.kind", "%s: reference or array", name);
        MON_CHECK((Reflect::Refl<const T[5]>::kind == Reflect::Kind::array_ && Reflect::Refl<const T[5]>::length == 5 && same<Decay<typename Reflect::Refl<const T[5]>::underlying>, T>), "refl.kind", "%s: constant array", name);
        MON_CHECK((same<Decay<typename Reflect::Refl<const T*>::underlying>, T>) && string(Reflect::Refl<const T*>::name.c_string) == Reflect::Refl<T*>::name.c_string, "refl.kind", "%s: pointer to constant", name);
        check_name<T[4]>((string(name) + "[4]").c_str());
        check_name<const T&>(("const " + string(name) + "&").c_str());
    }
    MON_CHECK(Reflect::Refl<T*>::kind == Reflect::Kind::pointer_ && Reflect::Refl<const T*>::kind == Reflect::Kind::pointer_ && Reflect::Refl<T* const>::kind == Reflect::Kind::pointer_ && (same<typename Reflect::Refl<T*>::underlying, T>), "refl.kind", "%s: pointer", name);
    check_name<T>(name);
    check_name<T*>((string(name) + "*").c_str());
}
// Literals: equal exactly when every character is.
static void literals() {
    mon::ctx("literals");
    std::vector<Literal> ls{"", "a", "b", "ab", "ba", "abcdefghijklmnop", "abcdefghijklmnoq", "abcdefghijklmnopqrstuvwxyz01234", "abcdefghijklmnopqrstuvwxyz01235", "Abcdefghijklmnopqrstuvwxyz01234", "abcdefghijklmnopqrstuvwxyz0123", "abcdefghijklmnopq_stuvwxyz01234"};
    for(int i = 0; i < 31; i++) { Literal l{""}; memset(l.c_string, 0, sizeof l.c_string); memset(l.c_string, '.', 31); l.c_string[i] = '!'; ls.push_back(l); }
    for(size_t i = 0; i < ls.size(); i++) for(size_t j = 0; j < ls.size(); j++) {
        Literal copy = ls[i];
        mon::eval();
        bool eq = strcmp((const char*)copy, (const char*)ls[j]) == 0;
        MON_CHECK((copy == ls[j]) == eq && eq == (i == j), "refl.literal", "the literals '%s' and '%s' compare %s", copy.c_string, ls[j].c_string, copy == ls[j] ? "equal" : "different");
        MON_CHECK((String_View{copy} == String_View{ls[j]}) == eq && String_View{copy}.length() == strlen(copy.c_string), "refl.literal", "the literal '%s' as a string", copy.c_string);
    }
}
static void library() {
    literals();
    mon::ctx("library types");
    using K = Reflect::Kind;
    MON_CHECK(Reflect::Refl<void>::kind == K::void_ && Reflect::Refl<decltype(nullptr)>::kind == K::pointer_, "refl.kind", "void or null");
    MON_CHECK(Reflect::Refl<i8>::kind == K::i8_ && Reflect::Refl<i16>::kind == K::i16_ && Reflect::Refl<i32>::kind == K::i32_ && Reflect::Refl<i64>::kind == K::i64_, "refl.kind", "signed");
    prim<char>("char", K::char_); prim<bool>("bool", K::bool_);
    prim<i8>("i8", K::i8_); prim<i16>("i16", K::i16_); prim<i32>("i32", K::i32_); prim<i64>("i64", K::i64_);
    prim<u8>("u8", K::u8_); prim<u16>("u16", K::u16_); prim<u32>("u32", K::u32_); prim<u64>("u64", K::u64_);
    prim<f32>("f32", K::f32_); prim<f64>("f64", K::f64_);
    lib_enum<K>("Kind", {{"void_", K::void_}, {"char_", K::char_}, {"i8_", K::i8_}, {"i16_", K::i16_}, {"i32_", K::i32_}, {"i64_", K::i64_}, {"u8_", K::u8_}, {"u16_", K::u16_}, {"u32_", K::u32_}, {"u64_", K::u64_}, {"f32_", K::f32_}, {"f64_", K::f64_}, {"bool_", K::bool_}, {"array_", K::array_}, {"pointer_", K::pointer_}, {"enum_", K::enum_}, {"record_", K::record_}});
    lib_enum<Log::Level>("Level", {{"info", Log::Level::info}, {"warn", Log::Level::warn}, {"fatal", Log::Level::fatal}});
    lib_enum<Thread::Priority>("Priority", {{"low", Thread::Priority::low}, {"normal", Thread::Priority::normal}, {"high", Thread::Priority::high}, {"critical", Thread::Priority::critical}});
    lib_private(Vec<i32>{1, 2}, "Vec");
    lib_private(Slice<i32>{}, "Slice");
    lib_private(Stack<i32>{}, "Stack");
    lib_private(Queue<i32>{}, "Queue");
    lib_private(Heap<i32>{}, "Heap");
    lib_private(String_View{}, "String_View");
    lib_private(String<>{}, "String");
    lib_private(Map<i32, i32>{}, "Map");
    lib(Pair<i32, i8>{1, 2}, "Pair", {"first", "second"});
    lib_private(Opt<i32>{3}, "Opt");
    lib_private(Box<i32>{3}, "Box");
    lib_private(Rc<i32>{3}, "Rc");
    lib_private(Arc<i32>{3}, "Arc");
    lib(Tuple<>{}, "Tuple", {});
    lib(Tuple<i32, i8>{1, 2}, "Tuple", {"first", "rest"});
    lib_private(Variant<i32, i8>{i32(1)}, "Variant");
    lib_private(Storage<i32>{}, "Storage");
    lib_private(Thread::Atomic{3}, "Atomic");
    lib(Log::Location{}, "Location", {"function", "file", "line"});
    lib(Profile::Alloc{}, "Profile::Alloc", {"name", "address", "size"});
    lib(Vec2{}, "Vec2", {"x", "y"}); lib(Vec3{}, "Vec3", {"x", "y", "z"}); lib(Vec4{}, "Vec4", {"x", "y", "z", "w"});
    lib(Vec2i{}, "Vec2i", {"x", "y"}); lib(Vec3i{}, "Vec3i", {"x", "y", "z"}); lib(Vec4i{}, "Vec4i", {"x", "y", "z", "w"});
    lib(Vec2u{}, "Vec2u", {"x", "y"}); lib(Vec3u{}, "Vec3u", {"x", "y", "z"}); lib(Vec4u{}, "Vec4u", {"x", "y", "z", "w"});
    lib(Mat4{}, "Mat4", {"columns"}); lib(BBox{}, "BBox", {"min", "max"}); lib(Quat{}, "Quat", {"x", "y", "z", "w"});
    Ref<i32> ref{pointee};
    lib_private(ref, "Ref");
    lib(Named<"Label", i32>{3}, "Label", {"value"});
}
void part1(Rng&, u64); void part2(Rng&, u64); void part3(Rng&, u64); void part4(Rng&, u64); void part5(Rng&, u64); void part6(Rng&, u64);
#endif
static void part(Rng& r, u64 n) {
    if(mon::want("enums")) run_enums();
    if(mon::want("records")) run_records(r, n);
    if(mon::want("lists")) run_lists();
    if(mon::want("names")) run_names();
}
#if PART == 0
int main(int argc, char** argv) {
    mon::init(argc, argv, "C29", "hash of record text, enumerator, type name");
    Rng r(mon::S().seed);
    u64 n = mon::n(30, 400);
    if(mon::want("library")) library();
    part(r, n); part1(r, n); part2(r, n); part3(r, n); part4(r, n); part5(r, n); part6(r, n);
    Profile::finalize();
    return mon::finish();
}
#else
#define PCAT_(a, b) a##b
#define PCAT(a, b) PCAT_(a, b)
void PCAT(part, PART)(Rng& r, u64 n) { part(r, n); }
#endif
