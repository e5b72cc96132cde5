// C13: String / String_View against std::string, on exactly-sized heap buffers under AddressSanitizer.
#include "mon.h"
#include <rpp/base.h>
using namespace mon;
using rpp::String;
using rpp::String_View;
using rpp::u8;

using M2 = rpp::Mallocator<"C13 second">;

// A view whose bytes live in a heap block of exactly its length (or null when empty and asked).
struct Buf {
    u8* p;
    size_t n;
    Buf(const std::string& s, bool null_when_empty = false) : p(s.empty() && null_when_empty ? nullptr : (u8*)malloc(s.size())), n(s.size()) {
        if(n) memcpy(p, s.data(), n);
    }
    ~Buf() { free(p); }
    Buf(const Buf&) = delete;
    String_View v() const { return String_View{p, n}; }
};
static std::string str(String_View v) { return v.length() ? std::string((const char*)v.data(), v.length()) : std::string(); }
template<typename A> static std::string str(const String<A>& s) { return str(s.view()); }

static std::string gen(Rng& r) {
    static const int alpha[] = {0, 'a', 'b', '/', '\\', '.', 0xff, 0x80, ' ', 'Z'};
    static uint64_t calls = 0;
    size_t len = calls++ % 3000 == 2999 ? (r.chance(30) ? ((size_t)1 << r.range(7, 16)) + r(3) - 1 : r.chance(50) ? 1000 + r(8000) : 65530 + r(70000)) : r.chance(15) ? 0 : r.chance(60) ? 1 + r(6) : r.chance(80) ? 1 + r(40) : 1 + r(600);
    std::string s;
    int mode = (int)r(4);
    for(size_t i = 0; i < len; i++) s += (char)(mode == 0 ? r(256) : mode == 1 ? alpha[r(10)] : mode == 2 ? alpha[r(2)] : alpha[1 + r(5)]);
    return s;
}
static std::string near(Rng& r, const std::string& s) { // equal, prefix, one byte changed, extended
    std::string t = s;
    switch(r(6)) {
    case 0: return t;
    case 1: if(!t.empty()) t.resize(r(t.size() + 1)); return t;
    case 2: if(!t.empty()) t[r(t.size())] = (char)r(256); return t;
    case 3: t += (char)r(3); return t;
    case 4: if(!t.empty()) t.back() = (char)(t.back() + 1); return t;
    default: return gen(r);
    }
}
static std::string hex(const std::string& s) {
    std::string o;
    for(unsigned char c : s.substr(0, 40)) o += fmt("%02x", c);
    return o + fmt("(%zu)", s.size());
}
#define EQ(got, want, key)                                                                                     \
    do {                                                                                                       \
        std::string g_ = (got), w_ = (want);                                                                   \
        eval();                                                                                                \
        MON_CHECK(g_ == w_, key, "%s gave %s expected %s for %s", #got, hex(g_).c_str(), hex(w_).c_str(), hex(a).c_str()); \
    } while(0)
static bool sep(char c) { return c == '/' || c == '\\'; }

static void one(Rng& r) {
    std::string a = gen(r), b = near(r, a);
    ctx("a=%s b=%s", hex(a).c_str(), hex(b).c_str());
    Buf A(a, r.chance(50)), B(b, r.chance(50));
    String_View va = A.v(), vb = B.v();
    distinct(mix(hstr(a), hstr(b)));
    // construct / clone / move
    String<> sa = va.string(), sb = vb.string();
    EQ(str(sa), a, "string.construct");
    auto sa2 = va.string<M2>();
    EQ(str(sa2), a, "string.construct");
    auto cl = sa.clone();
    EQ(str(cl), a, "string.clone");
    auto cl2 = sa2.clone();
    EQ(str(cl2), a, "string.clone");
    MON_CHECK(cl.length() == a.size() && cl.capacity() >= a.size() && cl.empty() == a.empty() && va.empty() == a.empty() && va.length() == a.size(), "string.length", "length/capacity/empty");
    if(!a.empty()) {
        MON_CHECK(cl.data() != sa.data(), "string.clone", "clone shares its bytes with the source");
        size_t i = r(a.size());
        cl[i] = (u8)(cl[i] + 1);
        MON_CHECK(sa[i] == (u8)a[i] && va[i] == (u8)a[i] && (u8)cl[i] == (u8)(a[i] + 1), "string.clone", "writing the clone changed the source");
        cl[i] = (u8)a[i];
    }
    EQ(str(va.clone()), a, "string.view");
    String<> mv = std::move(cl);
    EQ(str(mv), a, "string.move");
    MON_CHECK(cl.empty() && cl.length() == 0 && cl.capacity() == 0, "string.move", "moved-from string is not empty");
    mv = sb.clone();
    EQ(str(mv), b, "string.move");
    { String<> tmp = std::move(mv); mv = std::move(tmp); }
    EQ(str(mv), b, "string.move");
    // indexing / iteration
    { std::string it, ix; for(u8 c : sa) it += (char)c; for(size_t i = 0; i < sa.length(); i++) ix += (char)sa[i]; EQ(it, a, "string.iterate"); EQ(ix, a, "string.index"); }
    { std::string it; for(u8 c : va) it += (char)c; EQ(it, a, "string.iterate"); }
    { const auto& ca = sa; std::string it; for(const u8& c : ca) it += (char)c; EQ(it, a, "string.iterate"); }
    // sub
    size_t s0 = r(a.size() + 1), s1 = s0 + r(a.size() - s0 + 1);
    EQ(str(va.sub(s0, s1)), a.substr(s0, s1 - s0), "string.sub");
    EQ(str(sa.sub(s0, s1)), a.substr(s0, s1 - s0), "string.sub");
    MON_CHECK(va.sub(s0, s1).data() == va.data() + s0, "string.sub", "sub is not a view of the same bytes");
    // append
    EQ(str(va.append<rpp::Mdefault>(vb)), a + b, "string.append");
    EQ(str(sa.append<rpp::Mdefault>(sb)), a + b, "string.append");
    EQ(str(sa.append<M2>(sa2)), a + a, "string.append");
    // terminate
    {
        auto t = va.terminate<rpp::Mdefault>();
        auto u = sa.terminate<M2>();
        EQ(str(t), a + std::string(1, '\0'), "string.terminate");
        EQ(str(u), a + std::string(1, '\0'), "string.terminate");
        std::string upto = a.substr(0, a.find('\0'));
        EQ(std::string((const char*)t.data()), upto, "string.terminate");
        EQ(str(String_View{(const char*)t.data()}), upto, "string.cstring");
    }
    // write
    {
        size_t cap = a.size() + b.size() + r(4);
        if(!cap) cap = 1;
        String<> w{(rpp::u64)cap};
        MON_CHECK(w.length() == 0 && w.capacity() == cap, "string.capacity", "String(capacity)");
        w.set_length(cap);
        std::string m(cap, '#');
        for(size_t i = 0; i < cap; i++) if(w.write(i, '#') != i + 1) violation("string.write", "write(char) position");
        size_t at = r(cap - a.size() + 1);
        bool viaview = r.chance(50);
        size_t e = viaview ? w.write(at, va) : w.write(at, sa2);
        for(size_t i = 0; i < a.size(); i++) m[at + i] = a[i];
        MON_CHECK(e == at + a.size(), "string.write", "write returned %zu expected %zu", e, at + a.size());
        EQ(str(w), m, "string.write");
        at = r(cap - b.size() + 1);
        e = w.write(at, vb);
        for(size_t i = 0; i < b.size(); i++) m[at + i] = b[i];
        EQ(str(w), m, "string.write");
        size_t l = r(cap + 1);
        w.set_length(l);
        EQ(str(w), m.substr(0, l), "string.set_length");
        EQ(str(w.clone()), m.substr(0, l), "string.clone");
        // A string with spare capacity: only its length takes part in anything.
        std::string part = m.substr(0, l);
        EQ(str(w.append<rpp::Mdefault>(sb)), part + b, "string.append");
        EQ(str(sa.append<M2>(w)), a + part, "string.append");
        EQ(str(w.terminate<M2>()), part + std::string(1, '\0'), "string.terminate");
        EQ(str(w.view().append<M2>(vb)), part + b, "string.append");
        MON_CHECK((w == String_View{(const u8*)part.data(), part.size()}) && w.length() == l && w.empty() == (l == 0), "string.length", "string with spare capacity");
        // A clone may be filled up to the capacity it claims.
        auto full = w.clone();
        size_t room = full.capacity();
        full.set_length(room);
        std::string want = part;
        want.resize(room, '!');
        for(size_t i = l; i < room; i++) (void)full.write(i, '!');
        EQ(str(full), want, "string.clone");
        EQ(str(w), part, "string.clone");
        auto tm = w.terminate<M2>();
        tm.set_length(tm.capacity());
        for(size_t i = l; i < tm.capacity(); i++) tm[i] = '?';
        auto ap = w.append<M2>(vb.string());
        ap.set_length(ap.capacity());
        for(size_t i = 0; i < ap.capacity(); i++) ap[i] = '?';
        String<> ow = std::move(w);
        ow.set_length(cap);
        EQ(str(ow), m, "string.move");
    }
    // comparison: all combinations, both directions
    bool eq = a == b, lt = a < b, gt = b < a; // std::string compares as unsigned char
    auto cmp = [&](bool got, bool want, const char* what) {
        eval();
        MON_CHECK(got == want, "string.compare", "%s: got %d for %s and %s", what, got, hex(a).c_str(), hex(b).c_str());
    };
    auto sb2 = vb.string<M2>();
    cmp(va == vb, eq, "view == view");
    cmp(vb == va, eq, "view == view");
    cmp(sa == vb, eq, "string == view");
    cmp(va == sb, eq, "view == string");
    cmp(sa == sb, eq, "string == string");
    cmp(sa == sb2, eq, "string == string of another allocator");
    cmp(va != vb, !eq, "view != view");
    cmp(sa != sb, !eq, "string != string");
    cmp(va < vb, lt, "view < view");
    cmp(vb < va, gt, "view < view");
    cmp(sa < sb, lt, "string < string");
    cmp(sb2 < sa, gt, "string < string");
    // path helpers
    size_t ls = std::string::npos, ld = std::string::npos;
    for(size_t i = 0; i < a.size(); i++) {
        if(sep(a[i])) ls = i;
        if(sep(a[i]) || a[i] == '.') ld = i;
    }
    EQ(str(va.file_suffix()), ls == std::string::npos ? a : a.substr(ls + 1), "string.file_suffix");
    EQ(str(va.file_extension()), ld == std::string::npos ? a : a.substr(ld + 1), "string.file_extension");
    EQ(str(va.remove_file_suffix()), ls == std::string::npos ? "" : a.substr(0, ls + 1), "string.remove_file_suffix");
    if(ls != std::string::npos) count("with_separator");
    if(a.find('\0') != std::string::npos) count("with_nul");
    if(eq) count("equal_pairs");
}

// Ordering laws on triples that share prefixes.
static void order(Rng& r) {
    std::vector<std::string> m;
    m.push_back(gen(r));
    for(int i = 0; i < 4; i++) m.push_back(near(r, m[r(m.size())]));
    std::vector<String<>> s;
    for(auto& x : m) { Buf b(x); s.push_back(b.v().string()); }
    for(size_t i = 0; i < s.size(); i++)
        for(size_t j = 0; j < s.size(); j++) {
            int rel = (s[i] < s[j]) + (s[j] < s[i]) + (s[i] == s[j]);
            MON_CHECK(rel == 1, "string.order", "trichotomy broken (%d) for %s, %s", rel, hex(m[i]).c_str(), hex(m[j]).c_str());
            for(size_t k = 0; k < s.size(); k++)
                if(s[i] < s[j] && s[j] < s[k]) MON_CHECK(s[i] < s[k], "string.order", "not transitive");
            eval();
        }
}

static void exhaustive() { // every pair of strings of length <= 3 over {NUL, 'a', '/', '.'}
    const char al[] = {0, 'a', '/', '.'};
    std::vector<std::string> all{""};
    for(size_t i = 0; i < all.size(); i++)
        if(all[i].size() < 3)
            for(char c : al) all.push_back(all[i] + c);
    for(auto& a : all)
        for(auto& b : all) {
            Buf A(a), B(b);
            bool ok = (A.v() == B.v()) == (a == b) && (A.v() < B.v()) == (a < b);
            MON_CHECK(ok, "string.compare", "%s vs %s", hex(a).c_str(), hex(b).c_str());
            EQ(str(A.v().append<rpp::Mdefault>(B.v())), a + b, "string.append");
        }
    count("exhaustive_pairs", all.size() * all.size());
}
static void literals() {
    std::string a;
    EQ(str("x\0y"_v), std::string("x\0y", 3), "string.literal");
    EQ(str(""_v), "", "string.literal");
    EQ(str(String_View{"abc"}), "abc", "string.cstring");
    EQ(str(String_View{rpp::Literal{"hello"}}), "hello", "string.literal");
    EQ(str(String_View{rpp::Literal{"0123456789012345678901234567890"}}), "0123456789012345678901234567890", "string.literal");
    // Literals of every length, up to one filling the whole buffer.
    for(size_t l = 0; l <= rpp::Literal::max_len; l++) {
        rpp::Literal lit{""};
        std::string want;
        for(size_t i = 0; i < l; i++) want += lit.c_string[i] = (char)('A' + i);
        struct { rpp::Literal lit; char after[8]; } boxed{lit, {'#', '#', '#', '#', '#', '#', '#', 0}};
        EQ(str(String_View{boxed.lit}), want, "string.literal");
        std::string w2 = want;
        if(l) w2.back() = (char)(w2.back() + 1);
        rpp::Literal other = lit;
        if(l) other.c_string[l - 1]++;
        MON_CHECK((lit == rpp::Literal{lit}) && (l == 0 || !(lit == other)), "string.literal", "literal equality at length %zu", l);
    }
    for(int c = 0; c < 256; c++) {
        u8 up = c >= 'a' && c <= 'z' ? c - 32 : c, lo = c >= 'A' && c <= 'Z' ? c + 32 : c;
        bool ws = c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v';
        MON_CHECK(rpp::ascii::to_uppercase((u8)c) == up && rpp::ascii::to_lowercase((u8)c) == lo, "string.ascii", "case of %d", c);
        if(c != '\f') MON_CHECK(rpp::ascii::is_whitespace((u8)c) == ws, "string.ascii", "whitespace %d", c);
        eval();
    }
    String<> e;
    MON_CHECK(e.empty() && e.length() == 0 && e.view().length() == 0, "string.empty", "default string");
    EQ(str(e.clone()), "", "string.clone");
    EQ(str(e.terminate<rpp::Mdefault>()), std::string(1, '\0'), "string.terminate");
    EQ(str(e.append<rpp::Mdefault>(e)), "", "string.append");
}
int main(int argc, char** argv) {
    init(argc, argv, "C13", "hash of one generated pair of byte strings");
    Rng r(S().seed);
    if(want("literals")) literals();
    if(want("exhaustive")) exhaustive();
    if(want("random")) for(uint64_t i = 0; i < n(40000, 1500000); i++) { one(r); if(i < 6) sample(ctx_buf); if(violations() > 200) break; }
    if(want("order")) for(uint64_t i = 0; i < n(20000, 500000); i++) order(r);
    return finish();
}
