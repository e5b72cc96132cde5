// C16: log delivery. Recorded callback histories, debug.log and stdout are compared with what was logged.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/log_callback.h>
#include <rpp/thread.h>
using namespace rpp;
using mon::fmt;
using mon::Rng;
using std::string;

static string take(String_View v) { return v.length() ? string((const char*)v.data(), v.length()) : ""; }
static String_View view(const string& s) { return String_View{(const u8*)s.data(), s.size()}; }
static std::atomic<uint64_t> g_tick{1};

struct Rec {
    Log::Level level; u64 thread; u64 time; string file, func; u64 line; string msg; uint64_t tick;
};
static string expected_line(const Rec& r, u64 indent) {
    const char* l = r.level == Log::Level::info ? "info" : r.level == Log::Level::warn ? "warn" : "fatal";
    string t = take(Log::sys_time_string(r.time));
    string body = t + " [" + l + "/" + std::to_string(r.thread) + "] [" + r.file + ":" + std::to_string(r.line) + "]: " + string(indent * Log::INDENT_SIZE, ' ') + r.msg;
    if(r.level == Log::Level::info) return body + "\n";
    return "\033[0;31m" + body + "\033[0m\n";
}
static string slurp(const char* p) {
    string s;
    FILE* f = fopen(p, "rb");
    if(!f) return s;
    char b[65536];
    size_t n;
    while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
static size_t size_of(const char* p) { struct stat st; return stat(p, &st) ? 0 : (size_t)st.st_size; }

// One record per callback invocation; the overlap counter sees two deliveries at once.
struct Sub {
    std::vector<Rec> recs;
    std::atomic<int> inside{0};
    std::atomic<bool> dead{false};
    void got(Log::Level l, Thread::Id id, Log::Time t, Log::Location loc, String_View m) {
        if(inside.fetch_add(1) != 0) mon::violation("log.overlap", "two deliveries to one callback at the same time");
        if(dead) mon::violation("log.after-unsubscribe", "a callback ran after unsubscribe returned");
        recs.push_back(Rec{l, (u64)id, t, take(loc.file), take(loc.function), loc.line, take(m), g_tick++});
        inside.fetch_sub(1);
    }
};
static Log::Token attach(Sub& s) {
    return Log::subscribe([&s](Log::Level l, Thread::Id id, Log::Time t, Log::Location loc, String_View m) { s.got(l, id, t, loc, m); });
}
static string rmsg(Rng& r) {
    string s;
    size_t n = r.chance(10) ? 0 : r.chance(70) ? r(60) : r.chance(90) ? r(3000) : r.chance(50) ? ((size_t)1 << r.range(7, 16)) + r(3) - 1 : r(70000);
    for(size_t i = 0; i < n; i++) { char c = (char)(r.chance(90) ? 32 + r(95) : r(256)); s += c; }
    return s;
}
// Known call sites: the macros must report this file, this line, this function.
static u64 site_line;
static void site_info(const string& m) { site_line = __LINE__; info("%", view(m)); }
static void site_warn(const string& m) { site_line = __LINE__; warn("%", view(m)); }

static void sequential(Rng& r, int cases) {
    for(int c = 0; c < cases; c++) {
        mon::ctx("sequential case %d", c);
        size_t f0 = size_of("debug.log"), o0 = size_of("stdout.txt");
        std::vector<std::unique_ptr<Sub>> subs;
        std::vector<Log::Token> tok;
        std::vector<std::vector<size_t>> owed; // per subscriber: indexes of messages it must have
        std::vector<bool> on;
        std::vector<Rec> sent;
        string want;
        int steps = (int)r.range(5, 60);
        u64 depth = 0;
        std::vector<Log::Scope*> scopes;
        u64 deepest = 12;
        if(r.chance(20)) { deepest = 400; for(u64 k = r.range(13, 300); k-- > 0; depth++) scopes.push_back(new Log::Scope); }
        for(int s = 0; s < steps; s++) {
            switch(r(8)) {
            case 0:
                subs.push_back(std::make_unique<Sub>());
                tok.push_back(attach(*subs.back()));
                owed.emplace_back();
                on.push_back(true);
                break;
            case 1:
                if(!subs.empty()) { size_t i = r(subs.size()); if(on[i]) { Log::unsubscribe(tok[i]); subs[i]->dead = true; on[i] = false; } }
                break;
            case 2: if(depth < deepest) { scopes.push_back(new Log::Scope); depth++; } break;
            case 3: if(depth) { delete scopes.back(); scopes.pop_back(); depth--; } break;
            default: {
                string m = rmsg(r);
                Rec e{};
                u64 t0 = Log::sys_time();
                int how = (int)r(4);
                if(how == 0) { site_info(m); e.level = Log::Level::info; e.file = "c16_log.cpp"; e.line = site_line; e.func = "site_info"; }
                else if(how == 1) { site_warn(m); e.level = Log::Level::warn; e.file = "c16_log.cpp"; e.line = site_line; e.func = "site_warn"; }
                else {
                    static const char* names[] = {"f.cpp", "", "some_long_file_name.h"};
                    string fn = names[r(3)];
                    if(r.chance(15)) fn = string(r.range(1, r.chance(30) ? 70000 : 600), (char)('a' + r(26))) + ".h";
                    e.level = (Log::Level)r(3); e.file = fn; e.line = r.chance(20) ? ~0ull : r(100000); e.func = "fun";
                    Log::output(e.level, Log::Location{view(e.func), view(e.file), e.line}, view(m));
                }
                u64 t1 = Log::sys_time();
                e.msg = m; e.thread = (u64)Thread::this_id(); e.time = t0;
                size_t idx = sent.size();
                for(size_t i = 0; i < subs.size(); i++) if(on[i]) owed[i].push_back(idx);
                sent.push_back(e);
                (void)t1;
                // the file must contain exactly this record now
                string tail = slurp("debug.log").substr(f0), out = slurp("stdout.txt").substr(o0);
                string w0 = expected_line(e, depth);
                Rec e1 = e; e1.time = t1;
                string w1 = expected_line(e1, depth);
                bool okf = tail == want + w0 || tail == want + w1, oko = out == want + w0 || out == want + w1;
                MON_CHECK(okf, "log.file", "debug.log record differs for level %d indent %llu length %zu", (int)e.level, (unsigned long long)depth, m.size());
                MON_CHECK(oko, "log.stdout", "stdout record differs for level %d indent %llu length %zu", (int)e.level, (unsigned long long)depth, m.size());
                want = okf ? tail : want + w0;
                mon::eval();
                mon::distinct(mon::mix(mon::hstr(m), mon::mix(depth, (u64)e.level)));
                if(mon::violations()) return;
            }
            }
        }
        while(!scopes.empty()) { delete scopes.back(); scopes.pop_back(); }
        for(size_t i = 0; i < subs.size(); i++) {
            if(on[i]) Log::unsubscribe(tok[i]);
            auto& g = subs[i]->recs;
            MON_CHECK(g.size() == owed[i].size(), "log.delivery", "subscriber got %zu messages, %zu were logged while it was subscribed", g.size(), owed[i].size());
            for(size_t k = 0; k < g.size() && k < owed[i].size(); k++) {
                Rec& e = sent[owed[i][k]];
                bool ok = g[k].msg == e.msg && g[k].level == e.level && g[k].line == e.line && g[k].file == e.file && g[k].func.find(e.func) != string::npos && g[k].thread == e.thread && g[k].time >= e.time && g[k].time <= e.time + 2;
                MON_CHECK(ok, "log.content", "delivered record differs: level %d line %llu file %s msg %zu bytes", (int)g[k].level, (unsigned long long)g[k].line, g[k].file.c_str(), g[k].msg.size());
                mon::eval();
            }
            mon::count("sequential_deliveries", g.size());
        }
        // tokens are distinct
        std::set<u64> ts(tok.begin(), tok.end());
        MON_CHECK(ts.size() == tok.size(), "log.token", "a token was issued twice");
    }
    // formatted macros
    Sub s;
    auto t = attach(s);
    info("a % b % %% c", 5, "x"_v);
    warn("%", -1);
    info("plain");
    Log::unsubscribe(t);
    MON_CHECK(s.recs.size() == 3 && s.recs[0].msg == "a 5 b x % c" && s.recs[1].msg == "-1" && s.recs[2].msg == "plain", "log.content", "formatted macro text");
}

struct Sent { int thread, seq; u64 indent; uint64_t t0, t1; };
struct Dyn { Sub sub; uint64_t sub0, sub1, un0, un1; };

static void concurrent(Rng& r, int round) {
    int T = (int)r.range(2, 5), N = (int)r.range(20, 60), D = (int)r.range(1, 3);
    mon::ctx("concurrent round %d T %d N %d", round, T, N);
    size_t f0 = size_of("debug.log"), o0 = size_of("stdout.txt");
    bool keep = r.chance(70); // without a permanent subscriber the callback table empties now and then
    Sub perm;
    Log::Token pt = 0;
    if(keep) pt = attach(perm);
    std::vector<std::vector<Sent>> sent((size_t)T);
    std::vector<std::vector<std::unique_ptr<Dyn>>> dyn((size_t)D);
    std::vector<std::thread> ts;
    std::vector<u64> ids((size_t)T);
    uint64_t seed = r.next();
    std::atomic<int> running{T};
    for(int t = 0; t < T; t++)
        ts.emplace_back([&, t] {
            Rng q(seed + (uint64_t)t);
            ids[(size_t)t] = (u64)Thread::this_id();
            std::vector<std::unique_ptr<Log::Scope>> sc;
            for(int i = 0; i < N; i++) {
                if(q.chance(20) && sc.size() < 6) sc.push_back(std::make_unique<Log::Scope>());
                if(q.chance(20) && !sc.empty()) sc.pop_back();
                Sent s{t, i, sc.size(), g_tick++, 0};
                string pad(q.chance(10) ? q(3000) : q(30), (char)('a' + t));
                if(q.chance(50)) info("m%|%|%|%", s.thread, s.seq, s.indent, view(pad));
                else warn("m%|%|%|%", s.thread, s.seq, s.indent, view(pad));
                s.t1 = g_tick++;
                sent[(size_t)t].push_back(s);
                if(q.chance(10)) std::this_thread::yield();
            }
            while(!sc.empty()) sc.pop_back();
            running--;
        });
    for(int d = 0; d < D; d++)
        ts.emplace_back([&, d] {
            Rng q(seed ^ (uint64_t)(d + 77));
            while(running > 0 && dyn[(size_t)d].size() < 200) {
                auto x = std::make_unique<Dyn>();
                x->sub0 = g_tick++;
                auto tk = attach(x->sub);
                x->sub1 = g_tick++;
                if(q.chance(70)) usleep((useconds_t)q(400));
                x->un0 = g_tick++;
                Log::unsubscribe(tk);
                x->sub.dead = true;
                x->un1 = g_tick++;
                dyn[(size_t)d].push_back(std::move(x));
            }
        });
    for(auto& t : ts) t.join();
    if(keep) Log::unsubscribe(pt);
    // who must have received what
    auto judge = [&](Sub& s, uint64_t a0, uint64_t a1, uint64_t b0, uint64_t b1, const char* who) {
        std::vector<std::vector<int>> got((size_t)T, std::vector<int>((size_t)N, 0));
        std::vector<int> last((size_t)T, -1);
        for(auto& rec : s.recs) {
            int t, i; unsigned long long ind;
            if(sscanf(rec.msg.c_str(), "m%d|%d|%llu|", &t, &i, &ind) != 3 || t >= T || i >= N) { mon::violation("log.content", "%s received a mangled message", who); continue; }
            size_t bar = rec.msg.rfind('|');
            for(size_t k = bar + 1; k < rec.msg.size(); k++) if(rec.msg[k] != (char)('a' + t)) { mon::violation("log.content", "%s received bytes of another message", who); break; }
            if(rec.thread != ids[(size_t)t]) mon::violation("log.thread", "%s: wrong thread id", who);
            if(i <= last[(size_t)t]) mon::violation("log.order", "%s: messages of one thread out of order (%d after %d)", who, i, last[(size_t)t]);
            last[(size_t)t] = i;
            got[(size_t)t][(size_t)i]++;
        }
        for(int t = 0; t < T; t++)
            for(int i = 0; i < N; i++) {
                auto& m = sent[(size_t)t][(size_t)i];
                int g = got[(size_t)t][(size_t)i];
                bool must = m.t0 > a1 && m.t1 < b0, mustnot = m.t1 < a0 || m.t0 > b1;
                if(must && g != 1) mon::violation("log.delivery", "%s: message %d of thread %d delivered %d times while subscribed throughout", who, i, t, g);
                if(mustnot && g) mon::violation("log.delivery", "%s: message %d of thread %d delivered outside the subscription", who, i, t);
                if(g > 1) mon::violation("log.delivery", "%s: message delivered %d times", who, g);
                mon::eval();
            }
        mon::count("concurrent_deliveries", s.recs.size());
    };
    if(keep) judge(perm, 0, 0, ~0ull, ~0ull, "permanent subscriber");
    for(auto& v : dyn) for(auto& x : v) { judge(x->sub, x->sub0, x->sub1, x->un0, x->un1, "dynamic subscriber"); mon::count("subscriptions"); }
    // both outputs: every message exactly once as one whole line, per-thread order kept
    for(int which = 0; which < 2; which++) {
        string text = which ? slurp("stdout.txt").substr(o0) : slurp("debug.log").substr(f0);
        std::vector<int> last((size_t)T, -1);
        size_t pos = 0, lines = 0;
        uint64_t h = 0;
        while(pos < text.size()) {
            size_t nl = text.find('\n', pos);
            if(nl == string::npos) { mon::violation("log.record", "output ends with a partial record"); break; }
            string line = text.substr(pos, nl - pos);
            pos = nl + 1;
            lines++;
            size_t m = line.find("]: ");
            int t = -1, i = -1; unsigned long long ind = 0;
            size_t sp = m == string::npos ? 0 : m + 3, e = sp;
            while(e < line.size() && line[e] == ' ') e++;
            if(m == string::npos || sscanf(line.c_str() + e, "m%d|%d|%llu|", &t, &i, &ind) != 3 || t >= T || i >= N) { mon::violation("log.record", "mangled record in %s: %.200s", which ? "stdout" : "debug.log", line.c_str()); break; }
            bool warn_ = line.compare(0, 7, "\033[0;31m") == 0;
            string tail = line.substr(e);
            size_t bar = tail.rfind('|');
            size_t stop = tail.size();
            if(warn_) { if(tail.size() < 4 || tail.compare(tail.size() - 4, 4, "\033[0m")) mon::violation("log.record", "warning record not terminated"); else stop -= 4; }
            for(size_t k = bar + 1; k < stop; k++) if(tail[k] != (char)('a' + t)) { mon::violation("log.record", "interleaved bytes in %s: %.200s", which ? "stdout" : "debug.log", line.c_str()); break; }
            if(e - sp != ind * Log::INDENT_SIZE) mon::violation("log.indent", "indented by %zu, the thread's own scopes ask for %llu", e - sp, ind * Log::INDENT_SIZE);
            if(line.find("/" + std::to_string(ids[(size_t)t]) + "]") == string::npos) mon::violation("log.thread", "record does not name its thread");
            if(i != last[(size_t)t] + 1) mon::violation("log.order", "%s: message %d of thread %d after %d", which ? "stdout" : "debug.log", i, t, last[(size_t)t]);
            last[(size_t)t] = i;
            h = mon::mix(h, (uint64_t)t);
            mon::eval();
        }
        MON_CHECK(lines == (size_t)(T * N), "log.record", "%s holds %zu records, %d messages were logged", which ? "stdout" : "debug.log", lines, T * N);
        mon::distinct(h); // distinct interleavings of the threads' records
    }
    if(round < 3) mon::sample(fmt("%d threads x %d messages, %d subscribers churn", T, N, D));
}

// A callback may log itself: nobody hangs, everybody gets the outer message once, the inner one is written once.
static void nested(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        int n = (int)r.range(1, 24), loud = (int)r((u64)n);
        mon::ctx("nested case %d: %d subscribers, number %d logs", c, n, loud);
        size_t f0 = size_of("debug.log"), o0 = size_of("stdout.txt");
        std::vector<std::unique_ptr<Sub>> subs;
        std::vector<Log::Token> tok;
        string outer = fmt("outer-%d-%llu", c, (unsigned long long)r.next()), inner = fmt("inner-%d-%llu", c, (unsigned long long)r.next());
        int said = 0, level = (int)r(3);
        static int how;
        how = (int)r(3);
        for(int i = 0; i < n; i++) {
            subs.push_back(std::make_unique<Sub>());
            Sub& s = *subs.back();
            if(i != loud) tok.push_back(attach(s));
            else tok.push_back(Log::subscribe([&](Log::Level l, Thread::Id id, Log::Time t, Log::Location loc, String_View m) {
                s.got(l, id, t, loc, m);
                if(take(m) != outer || said >= 3) return;
                said++;
                if(how == 0) info("%", view(inner));
                else if(how == 1) warn("%", view(inner));
                else Log::output(Log::Level::fatal, Log::Location{"fun"_v, "f.cpp"_v, 1}, view(inner));
            }));
        }
        if(level == 0) info("%", view(outer));
        else if(level == 1) warn("%", view(outer));
        else Log::output(Log::Level::fatal, Log::Location{"fun"_v, "f.cpp"_v, 1}, view(outer));
        auto times = [](const string& text, const string& what) { int k = 0; for(size_t p = text.find(what); p != string::npos; p = text.find(what, p + 1)) k++; return k; };
        string f = slurp("debug.log").substr(f0), o = slurp("stdout.txt").substr(o0);
        MON_CHECK(said == 1, "log.delivery", "the logging callback received the message %d times", said);
        MON_CHECK(times(f, outer) == 1 && times(o, outer) == 1 && times(f, inner) == 1 && times(o, inner) == 1, "log.record", "outer and inner message written %d/%d times to debug.log and %d/%d to stdout", times(f, outer), times(f, inner), times(o, outer), times(o, inner));
        for(int i = 0; i < n; i++) {
            Log::unsubscribe(tok[(size_t)i]);
            int got = 0;
            for(auto& e : subs[(size_t)i]->recs) got += e.msg == outer;
            MON_CHECK(got == 1, "log.delivery", "subscriber %d of %d received the message %d times", i, n, got);
        }
        info("afterwards %", c);
        mon::eval((uint64_t)n);
        mon::distinct(mon::mix((uint64_t)n, (uint64_t)loud));
        mon::count("nested_messages");
    }
}
// Long histories: tokens stay distinct and keep naming their own callback however many were issued before.
static void tokens(Rng& r, int churn) {
    mon::ctx("%d subscriptions while one stays", churn);
    Sub stays, late;
    auto t = attach(stays);
    size_t live = 0;
    std::vector<std::pair<Log::Token, int>> on;
    std::vector<int> got((size_t)churn, 0);
    std::set<u64> seen{(u64)t};
    for(int i = 0; i < churn; i++) {
        auto k = Log::subscribe([&got, i](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) { got[(size_t)i]++; });
        if(!seen.insert((u64)k).second) { mon::violation("log.token", "token %llu was issued twice", (unsigned long long)k); return; }
        on.push_back({k, i});
        while(on.size() > (i % 20000 == 0 ? 300 : 40)) { size_t j = r(on.size()); Log::unsubscribe(on[j].first); on[j] = on.back(); on.pop_back(); }
        live = std::max(live, on.size());
    }
    auto k = attach(late);
    std::vector<int> before = got;
    info("to all");
    MON_CHECK(stays.recs.size() == 1 && late.recs.size() == 1, "log.delivery", "after %d subscriptions the first subscriber got %zu and the last %zu of 1 message", churn, stays.recs.size(), late.recs.size());
    std::set<int> alive;
    for(auto& o : on) alive.insert(o.second);
    for(int i = 0; i < churn; i++) MON_CHECK(got[(size_t)i] - before[(size_t)i] == (int)alive.count(i), "log.delivery", "subscription %d got the message %d times, expected %d", i, got[(size_t)i] - before[(size_t)i], (int)alive.count(i));
    for(auto& o : on) Log::unsubscribe(o.first);
    Log::unsubscribe(k);
    Log::unsubscribe(t);
    mon::eval((uint64_t)churn);
    mon::count("subscriptions_in_sequence", (uint64_t)churn);
    (void)live;
}
// Many subscribers at once: each gets every message once.
static void audience(Rng& r, int n) {
    mon::ctx("%d subscribers at once", n);
    std::vector<std::unique_ptr<Sub>> subs;
    std::vector<Log::Token> tok;
    for(int i = 0; i < n; i++) { subs.push_back(std::make_unique<Sub>()); tok.push_back(attach(*subs.back())); }
    int msgs = (int)r.range(1, 4);
    for(int m = 0; m < msgs; m++) info("message %", m);
    for(int i = 0; i < n; i++) {
        MON_CHECK(subs[(size_t)i]->recs.size() == (size_t)msgs, "log.delivery", "subscriber %d of %d got %zu of %d messages", i, n, subs[(size_t)i]->recs.size(), msgs);
        Log::unsubscribe(tok[(size_t)i]);
    }
    mon::eval((uint64_t)n);
}
// The texts Log hands out belong to the calling thread.
static void texts(Rng& r, int rounds) {
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("texts round %d", k);
        std::vector<std::thread> ts;
        uint64_t seed = r.next();
        std::atomic<int> ready{0};
        for(int t = 0; t < 4; t++)
            ts.emplace_back([&, t] {
                Rng q(seed + (uint64_t)t);
                ready++;
                while(ready < 4) sched_yield();
                for(int i = 0; i < 60; i++) {
                    Log::Time at = q(4102444800ull);
                    auto v = Log::sys_time_string(at);
                    if(q.chance(30)) sched_yield();
                    char want[64];
                    time_t tt = (time_t)at;
                    struct tm tm;
                    localtime_r(&tt, &tm);
                    strftime(want, sizeof want, "[%H:%M:%S]", &tm);
                    string got = take(v);
                    if(got != want) mon::violation("log.time-text", "%s for a time of %s", got.c_str(), want);
                    int code = q.chance(60) ? 5000 + t * 1000 + i : 1 + (int)q(130);
                    errno = code;
                    auto e = Log::sys_error();
                    if(q.chance(30)) sched_yield();
                    got = take(e);
                    char buf[256];
                    string text = strerror_r(code, buf, sizeof buf);
                    if(got != text) mon::violation("log.error-text", "\"%s\" for error %d", got.c_str(), code);
                    mon::eval();
                }
            });
        for(auto& t : ts) t.join();
        mon::count("texts", 480);
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C16", "hash of one message (bytes, level, indentation) or of the observed order of threads' records in one concurrent round");
    int fd = open("stdout.txt", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    fflush(stdout);
    dup2(fd, 1);
    close(fd);
    Rng r(mon::S().seed);
    if(mon::want("sequential")) sequential(r, (int)mon::n(40, 400));
    if(mon::want("nested")) nested(r, (int)mon::n(60, 2000));
    if(mon::want("tokens")) { tokens(r, (int)mon::n(70000, 300000)); for(uint64_t i = 0, N = mon::n(3, 20); i < N && !mon::violations(); i++) audience(r, (int)r.range(30, 2000)); }
    if(mon::want("texts")) texts(r, (int)mon::n(60, 2000));
    if(mon::want("concurrent"))
        for(uint64_t i = 0; i < mon::n(40, 1500); i++) {
            concurrent(r, (int)i);
            if(mon::violations()) break;
            if(size_of("stdout.txt") > (64u << 20)) break;
        }
    return mon::finish();
}
