// C15: parse_i64 / parse_f32 / parse_string / parse_enum / skip_whitespace against reference parsers,
// on heap buffers of exactly the view's length (AddressSanitizer sees any read outside the view).
#include "mon.h"
#include <rpp/base.h>
using namespace rpp;
using mon::fmt;
using mon::Rng;
using std::string;

enum class Fruit : i32 { apple = 1, banana = -7, c = 3, A = 4, apple_pie = 5, app = 6 };
enum class Huge : u64 { zero = 0, top = 0xffffffffffffffffull };
RPP_ENUM(Fruit, apple, RPP_CASE(apple), RPP_CASE(banana), RPP_CASE(c), RPP_CASE(A), RPP_CASE(apple_pie), RPP_CASE(app));
RPP_ENUM(Huge, zero, RPP_CASE(zero), RPP_CASE(top));

struct Buf {
    u8* p; size_t n;
    explicit Buf(const string& s) : p((u8*)malloc(s.size())), n(s.size()) { if(n) memcpy(p, s.data(), n); }
    ~Buf() { free(p); }
    String_View v() const { return String_View{p, n}; }
};
static string show(const string& s) {
    string o;
    for(unsigned char c : s.substr(0, 100)) o += c > 32 && c < 127 && c != '\\' ? string(1, (char)c) : fmt("\\x%02x", c);
    return "\"" + o + "\"" + fmt("(%zu)", s.size());
}
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v'; }
static string take(String_View v) { return v.length() ? string((const char*)v.data(), v.length()) : ""; }

static string num(Rng& r, bool fl) {
    static const char* pieces[] = {" ", "\t", "\n", "\v", "\f", "\r", "-", "+", "0", "1", "9", "00", "123", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                                   "99999999999999999999999", "x", "0x1f", "a", "_", ".", "e", "e5", "e-3", "1e38", "3.5", "1e400", "nan", "inf", "infinity", "NAN(1)", "0x1p-3", ",", "%", "18446744073709551615"};
    string s;
    size_t n = r.chance(10) ? 0 : 1 + r(5);
    for(size_t i = 0; i < n; i++) {
        if(r.chance(15)) s += (char)r(256);
        else if(r.chance(30)) s += std::to_string((long long)(r.next() >> r(64)) * (r.chance(50) ? 1 : -1));
        else s += pieces[r(sizeof pieces / sizeof *pieces)];
        if(fl && r.chance(20)) s += fmt("%.*g", (int)r(12), (r.unit() - 0.5) * std::pow(10, (double)r.range(-45, 45)));
    }
    return s;
}
// Independent decimal grammar for the common case; C library for the rest of strtoll's grammar.
static bool ref_i64(const string& s, long long& v, size_t& used) {
    size_t i = 0;
    while(i < s.size() && (ws(s[i]) || s[i] == '\f')) i++;
    bool neg = false;
    if(i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    size_t d0 = i;
    unsigned __int128 a = 0;
    for(; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++)
        if(a < ((unsigned __int128)1 << 100)) a = a * 10 + (unsigned)(s[i] - '0');
    if(i == d0) return false;
    used = i;
    if(neg) v = a >= ((unsigned __int128)1 << 63) ? LLONG_MIN : -(long long)a;
    else v = a >= ((unsigned __int128)1 << 63) ? LLONG_MAX : (long long)a;
    return true;
}
static void one_i64(const string& s) {
    mon::ctx("parse_i64 %s", show(s).c_str());
    Buf b(s);
    auto o = Format::parse_i64(b.v());
    long long v = 0; size_t used = 0;
    bool ok = ref_i64(s, v, used);
    mon::eval();
    MON_CHECK(o.ok() == ok, "parse.i64", "%s: ok %d expected %d", show(s).c_str(), o.ok(), ok);
    if(ok && o.ok()) {
        mon::count("i64_accepted");
        MON_CHECK(o->first == v, "parse.i64", "%s: value %lld expected %lld", show(s).c_str(), (long long)o->first, v);
        MON_CHECK(take(o->second) == s.substr(used), "parse.i64-rest", "%s: rest %s expected %s", show(s).c_str(), show(take(o->second)).c_str(), show(s.substr(used)).c_str());
    }
}
static void one_f32(const string& s) {
    mon::ctx("parse_f32 %s", show(s).c_str());
    Buf b(s);
    auto o = Format::parse_f32(b.v());
    string z = s; // c_str stops at the first NUL, like the C library would
    char* end = nullptr;
    float v = ::strtof(z.c_str(), &end);
    size_t used = (size_t)(end - z.c_str());
    mon::eval();
    MON_CHECK(o.ok() == (used > 0), "parse.f32", "%s: ok %d expected %d", show(s).c_str(), o.ok(), used > 0);
    if(used && o.ok()) {
        mon::count("f32_accepted");
        float g = o->first;
        MON_CHECK(memcmp(&g, &v, 4) == 0 || (std::isnan(g) && std::isnan(v)), "parse.f32", "%s: value %g expected %g", show(s).c_str(), g, v);
        MON_CHECK(take(o->second) == s.substr(used), "parse.f32-rest", "%s: rest %s", show(s).c_str(), show(take(o->second)).c_str());
    }
}
static bool ref_token(const string& s, string& tok, string& rest) {
    size_t i = 0;
    while(i < s.size() && ws(s[i])) i++;
    size_t j = i;
    while(j < s.size() && !ws(s[j])) j++;
    if(i == j) return false;
    tok = s.substr(i, j - i);
    rest = j == s.size() ? "" : s.substr(j + 1);
    return true;
}
static string words(Rng& r) {
    static const char* w[] = {"apple", "banana", "c", "A", "apple_pie", "app", "appl", "a", "Fruit::apple", "apples", "B", "zero", "top"};
    static const char sp[] = " \t\n\r\v";
    string s;
    size_t n = r.chance(10) ? 0 : r(7);
    for(size_t i = 0; i < n; i++) switch(r(4)) {
        case 0: s += sp[r(5)]; break;
        case 1: s += w[r(13)]; break;
        case 2: s += (char)r(256); if(s.back() == '\f') s.back() = 'f'; break;
        default: for(size_t k = r(3); k; k--) s += sp[r(5)]; s += w[r(13)]; break;
        }
    return s;
}
static void one_str(const string& s) {
    mon::ctx("parse_string %s", show(s).c_str());
    Buf b(s);
    string tok, rest;
    bool ok = ref_token(s, tok, rest);
    auto o = Format::parse_string(b.v());
    mon::eval();
    MON_CHECK(o.ok() == ok, "parse.string", "%s: ok %d expected %d", show(s).c_str(), o.ok(), ok);
    if(ok && o.ok()) {
        MON_CHECK(take(o->first) == tok, "parse.string", "%s: token %s expected %s", show(s).c_str(), show(take(o->first)).c_str(), show(tok).c_str());
        MON_CHECK(take(o->second) == rest, "parse.string-rest", "%s: rest %s expected %s", show(s).c_str(), show(take(o->second)).c_str(), show(rest).c_str());
    }
    size_t i = 0;
    while(i < s.size() && ws(s[i])) i++;
    MON_CHECK(take(Format::skip_whitespace(b.v())) == s.substr(i), "parse.skip", "skip_whitespace %s gave %s", show(s).c_str(), show(take(Format::skip_whitespace(b.v()))).c_str());
    mon::ctx("parse_enum %s", show(s).c_str());
    auto e = Format::parse_enum<Fruit>(b.v());
    int want = 0;
    bool known = ok;
    if(ok) {
        if(tok == "apple") want = 1; else if(tok == "banana") want = -7; else if(tok == "c") want = 3; else if(tok == "A") want = 4; else if(tok == "apple_pie") want = 5; else if(tok == "app") want = 6; else known = false;
    }
    MON_CHECK(e.ok() == known, "parse.enum", "%s: ok %d expected %d", show(s).c_str(), e.ok(), known);
    if(known && e.ok()) {
        mon::count("enum_accepted");
        MON_CHECK((int)e->first == want && take(e->second) == rest, "parse.enum", "%s: value %d expected %d", show(s).c_str(), (int)e->first, want);
    }
    auto h = Format::parse_enum<Huge>(b.v());
    bool hk = ok && (tok == "zero" || tok == "top");
    MON_CHECK(h.ok() == hk && (!hk || (u64)h->first == (tok == "top" ? ~0ull : 0)), "parse.enum", "%s: Huge", show(s).c_str());
}
// All tokens of a text, by repeated parsing, as a user would consume a line.
// Texts far longer than a line: long blanks, long tokens, long numbers, much text behind them.
static void long_text(Rng& r) {
    static const char sp[] = " \t\n\r\v";
    size_t big = (size_t)r.range(64, r.chance(20) ? 70000 : 3000);
    if(r.chance(40)) big = ((size_t)1 << r.range(5, 16)) + r(3) - 1; // sizes buffers tend to have
    auto blanks = [&](size_t n) { string s; while(s.size() < n) s += sp[r(5)]; return s; };
    auto digits = [&](size_t n) { string s; while(s.size() < n) s += (char)('0' + r(10)); return s; };
    string tail = r.chance(50) ? "" : r.chance(50) ? " " + string(r(200), 'z') : string(1, "x,e.-"[r(5)]) + string(r(70000), ' ');
    string lead = r.chance(50) ? "" : blanks(r.chance(50) ? r(9) : r(big));
    string sign = r.chance(40) ? (r.chance(50) ? "-" : "+") : "";
    switch(r(6)) {
    case 0: one_i64(lead + sign + string(r(big), '0') + std::to_string(r.next() >> r(64)) + tail); break;
    case 1: one_i64(lead + sign + digits(r(big)) + tail); break;
    case 2: one_f32(lead + sign + digits(r(60)) + "." + (r.chance(50) ? string(r(big), '0') : "") + digits(r(big)) + (r.chance(50) ? "e" + std::to_string((long long)r.range(-(long long)big - 40, 60)) : "") + tail); break;
    case 3: one_f32(lead + sign + "0." + string(big, '0') + digits(r(30)) + "e" + std::to_string(big + r(30)) + tail); break;
    case 4: { // a tie between two floats decided by a digit far behind
        string s = "16777217"; // halfway between 2^24 and 2^24 + 2
        one_f32(lead + s + "." + string(big, '0') + (r.chance(50) ? "1" : "") + tail);
        break;
    }
    default: {
        string tok;
        if(r.chance(30)) { static const char* w[] = {"apple", "banana", "app"}; tok = w[r(3)]; }
        else while(tok.size() < big) tok += (char)(33 + r(90));
        string s = lead + tok + (r.chance(70) ? blanks(r(r.chance(50) ? 3 : big)) + digits(r(50)) : "");
        one_str(s);
        mon::distinct(mon::hstr(s));
    }
    }
    mon::count("long_texts");
}
static void sentence(Rng& r) {
    std::vector<string> toks;
    string s;
    for(u64 n = r(8); n; n--) {
        string t;
        for(u64 k = 1 + r(5); k; k--) { char c; do c = (char)(33 + r(94)); while(ws(c)); t += c; }
        toks.push_back(t);
        s += t;
        if(n > 1 || r.chance(30)) for(u64 k = 1 + r(3); k; k--) s += " \t\n\r\v"[r(5)];
    }
    mon::ctx("sentence %s", show(s).c_str());
    Buf b(s);
    String_View rest = b.v();
    size_t i = 0;
    for(; i <= toks.size(); i++) {
        auto o = Format::parse_string(rest);
        if(!o.ok()) break;
        MON_CHECK(i < toks.size() && take(o->first) == toks[i], "parse.tokens", "token %zu of %s is %s", i, show(s).c_str(), show(take(o->first)).c_str());
        rest = o->second;
    }
    MON_CHECK(i == toks.size(), "parse.tokens", "%s: %zu tokens expected %zu", show(s).c_str(), i, toks.size());
    mon::eval();
    // a line of integers, formatted by the library and parsed back
    string line;
    std::vector<i64> vals;
    for(u64 n = r(6); n; n--) { i64 v = (i64)(r.next() >> r(64)); if(r.chance(50)) v = -v; if(r.chance(5)) v = LLONG_MIN; vals.push_back(v); auto t = format<Mdefault>("%"_v, v); line += take(t.view()) + " "; }
    Buf lb(line);
    rest = lb.v();
    for(i64 v : vals) {
        auto o = Format::parse_i64(rest);
        MON_CHECK(o.ok() && o->first == v, "parse.roundtrip", "line %s value %lld", show(line).c_str(), (long long)v);
        if(!o.ok()) return;
        rest = o->second;
    }
    for(Fruit f : {Fruit::apple, Fruit::banana, Fruit::c, Fruit::A, Fruit::apple_pie, Fruit::app}) {
        auto name = String_View{Format::enum_name(f)}.string();
        auto o = Format::parse_enum<Fruit>(name.view());
        MON_CHECK(o.ok() && o->first == f, "parse.roundtrip", "enumerator %s", take(name.view()).c_str());
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C15", "hash of one parsed text");
    Rng r(mon::S().seed);
    auto all = [](const string& s) { one_i64(s); one_f32(s); one_str(s); mon::distinct(mon::hstr(s)); };
    if(mon::want("exhaustive")) { // every text of length <= 3 over a small alphabet
        const char al[] = {' ', 'a', 'A', '1', '-', '\n', 0, '.'};
        std::vector<string> v{""};
        for(size_t i = 0; i < v.size(); i++) {
            all(v[i]);
            if(v[i].size() < 3) for(char c : al) v.push_back(v[i] + c);
        }
    }
    if(mon::want("numbers")) for(uint64_t i = 0; i < mon::n(150000, 4000000); i++) { string s = num(r, i & 1); all(s); if(i < 5) mon::sample(show(s)); }
    if(mon::want("words")) for(uint64_t i = 0; i < mon::n(150000, 4000000); i++) { string s = words(r); one_str(s); mon::distinct(mon::hstr(s)); if(i < 5) mon::sample(show(s)); }
    if(mon::want("long")) for(uint64_t i = 0; i < mon::n(6000, 100000); i++) long_text(r);
    if(mon::want("sentences")) for(uint64_t i = 0; i < mon::n(30000, 800000); i++) sentence(r);
    return mon::finish();
}
