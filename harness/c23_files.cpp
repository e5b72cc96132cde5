// C23: file input and output. Random contents, sizes and path shapes against the real file system, injected short and
// failing transfers, refused paths, limited devices, descriptor and allocation accounting. All paths are relative to
// the scratch directory the runner created.
#include "mon.h"
#include <dirent.h>
#include <rpp/base.h>
#include <rpp/asyncio.h>
#include <rpp/files.h>
#include <rpp/pool.h>
using namespace rpp;
using mon::fmt;
using mon::Rng;
using std::string;

// ---- transfer faults, applied only to calls made by the library
struct Faults { bool on = false; Rng r{1}; int short_pct = 0, eintr_pct = 0; int64_t fail_after = -1; int fail_errno = 0; uint64_t shorts = 0, eintrs = 0, fails = 0; int64_t moved = 0; int only_fd_above = 2; };
static thread_local Faults tf;
extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" ssize_t __real_write(int, const void*, size_t);
template<typename F> static ssize_t faulty(int fd, size_t n, F&& real) {
    if(!tf.on || fd <= tf.only_fd_above) return real(n);
    if(tf.eintr_pct && tf.r.chance((unsigned)tf.eintr_pct)) { tf.eintrs++; errno = EINTR; return -1; }
    if(tf.fail_after >= 0 && tf.moved >= tf.fail_after) { tf.fails++; errno = tf.fail_errno; return -1; }
    if(n > 1 && tf.short_pct && tf.r.chance((unsigned)tf.short_pct)) { tf.shorts++; n = 1 + tf.r(n - 1); }
    if(tf.fail_after >= 0 && (int64_t)n > tf.fail_after - tf.moved) n = (size_t)(tf.fail_after - tf.moved);
    ssize_t k = real(n);
    if(k > 0) tf.moved += k;
    return k;
}
extern "C" __attribute__((no_sanitize("thread"), no_sanitize("coverage"))) ssize_t __wrap_read(int fd, void* p, size_t n) { return faulty(fd, n, [&](size_t m) { return __real_read(fd, p, m); }); }
extern "C" __attribute__((no_sanitize("thread"), no_sanitize("coverage"))) ssize_t __wrap_write(int fd, const void* p, size_t n) { return faulty(fd, n, [&](size_t m) { return __real_write(fd, p, m); }); }

// A close that reports an error (the descriptor is gone all the same), as on network file systems.
static thread_local int g_close_errors = 0;
extern "C" int __real_close(int);
extern "C" __attribute__((no_sanitize("thread"), no_sanitize("coverage"))) int __wrap_close(int fd) {
    int k = __real_close(fd);
    if(g_close_errors > 0 && k == 0) { g_close_errors--; errno = EIO; return -1; }
    return k;
}
// The pool's event thread holds an epoll descriptor while it waits: not counted (C22 watches those).
static int n_fds() { return mon::fds(true); }
static bool fds_are(int n) { return mon::fds_are(n, true); }
// Exactly-sized, unterminated path so that ASan sees any read past it.
struct Path { char* p; size_t n; explicit Path(const string& s) : p((char*)malloc(s.size() + !s.size())), n(s.size()) { memcpy(p, s.data(), n); } ~Path() { free(p); } Path(const Path&) = delete; String_View view() const { return String_View{(const u8*)p, n}; } };
static string slurp(const string& p) { string s; FILE* f = fopen(p.c_str(), "rb"); if(!f) return "<missing>"; char b[65536]; size_t k; while((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static void spit(const string& p, const string& c) { FILE* f = fopen(p.c_str(), "wb"); if(f) { fwrite(c.data(), 1, c.size(), f); fclose(f); } }
static string content(Rng& r) {
    size_t n = r.chance(1) ? ((size_t)1 << 20) + r(7u << 20) : r.chance(10) ? 0 : r.chance(50) ? r(50) : r.chance(70) ? r(5000) : r.chance(60) ? 4096 * r(20) : r.chance(50) ? ((size_t)1 << r.range(6, 18)) + r(3) - 1 : r(700000);
    string s(n, 0);
    uint64_t x = r.next();
    for(size_t i = 0; i < n; i++) { if(i % 8 == 0) x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = (char)(x >> (8 * (i % 8))); }
    return s;
}
struct Io { // the four entry points behind one interface
    Async::Pool<>* pool = nullptr;
    bool write(const string& path, const string& data) {
        Path p(path);
        if(pool) {
            Vec<u8> v(data.size());
            for(char c : data) v.push((u8)c);
            auto t = Async::write(*pool, p.view(), v.slice());
            return t.block();
        }
        u8* d = (u8*)malloc(data.size() + !data.size());
        memcpy(d, data.data(), data.size());
        bool ok = Files::write(p.view(), Slice<const u8>{d, data.size()});
        free(d);
        return ok;
    }
    bool read(const string& path, string& out) {
        Path p(path);
        Opt<Vec<u8, Files::Alloc>> o;
        if(pool) { auto t = Async::read(*pool, p.view()); o = t.block(); }
        else o = Files::read(p.view());
        if(!o.ok()) return false;
        out.assign((const char*)(o->length() ? (const void*)o->data() : (const void*)""), o->length());
        return true;
    }
};
static void round_trips(Rng& r, Io io, int cases) {
    int fd0 = n_fds();
    std::map<string, string> disk;
    mkdir("sub dir", 0755);
    static const char* names[] = {"a", "b.bin", "sub dir/c d.txt", "./e", "very_long_name_0123456789012345678901234567890123456789012345678901234567890123456789"};
    for(int c = 0; c < cases && !mon::violations(); c++) {
        string path = names[r(5)];
        int op = (int)r(4);
        mon::ctx("round trip %d op %d path '%s'", c, op, path.c_str());
        tf = Faults();
        tf.r = Rng(r.next());
        if(r.chance(50)) { tf.on = true; tf.short_pct = r.chance(70) ? (int)r(90) : 0; tf.eintr_pct = r.chance(40) ? (int)r(40) : 0; }
        bool faulted = false;
        if(op <= 1) {
            string data = content(r);
            bool fail = r.chance(15);
            if(fail) { tf.on = true; tf.fail_after = (int64_t)r(data.size() + 1); tf.fail_errno = r.chance(50) ? ENOSPC : EIO; }
            bool ok = io.write(path, data);
            tf.on = false;
            faulted = tf.fails > 0 || tf.eintrs > 0;
            if(ok) {
                string now = slurp(path);
                MON_CHECK(now == data, "files.write", "write of %zu bytes reported success but the file holds %zu bytes (equal prefix %d)", data.size(), now.size(), (int)(now.compare(0, std::min(now.size(), data.size()), data, 0, std::min(now.size(), data.size())) == 0));
                MON_CHECK(tf.fails == 0 || now == data, "files.write", "a failed transfer was reported as success");
                disk[path] = now;
                struct stat st;
                if(!stat(path.c_str(), &st)) MON_CHECK((st.st_mode & 0600) == 0600, "files.mode", "the file was created with mode %o, its owner cannot use it", st.st_mode & 0777);
            } else {
                MON_CHECK(faulted, "files.write-failed", "write of %zu bytes failed without any fault (errno %d, short transfers %llu)", data.size(), errno, (unsigned long long)tf.shorts);
                disk[path] = slurp(path);
            }
            mon::distinct(mon::mix(data.size(), mon::mix(tf.shorts, tf.eintrs)));
            mon::count(ok ? "writes_ok" : "writes_refused");
        } else {
            if(r.chance(20)) { disk[path] = content(r); spit(path, disk[path]); } // written by someone else
            if(!disk.count(path)) continue;
            if(r.chance(15)) { tf.on = true; tf.fail_after = (int64_t)r(disk[path].size() + 1); tf.fail_errno = EIO; }
            string got;
            bool ok = io.read(path, got);
            tf.on = false;
            faulted = tf.fails > 0 || tf.eintrs > 0;
            if(ok) MON_CHECK(got == disk[path], "files.read", "read reported success with %zu bytes, the file holds %zu (short transfers %llu, failures %llu)", got.size(), disk[path].size(), (unsigned long long)tf.shorts, (unsigned long long)tf.fails);
            else MON_CHECK(faulted, "files.read-failed", "read of %zu bytes failed without any fault", disk[path].size());
            mon::count(ok ? "reads_ok" : "reads_refused");
            mon::distinct(mon::mix(got.size(), mon::mix(tf.shorts, tf.eintrs)) + 1);
        }
        mon::count("short_transfers", tf.shorts);
        mon::count("failed_transfers", tf.fails);
        mon::count("interrupted_transfers", tf.eintrs);
        mon::eval();
        if(c % 8 == 0 && !io.pool) MON_CHECK(fds_are(fd0), "files.fd", "%d descriptors before, %d after (op %d)", fd0, n_fds(), op);
    }
    tf = Faults();
    MON_CHECK(fds_are(fd0), "files.fd", "%d descriptors before, %d after", fd0, n_fds());
}
// ---- paths and devices that must be refused
static void refused(Rng& r, Io io) {
    int fd0 = n_fds();
    string got, big(300000, 'x');
    mkdir("dir", 0755);
    symlink("loop", "loop");
    symlink("target", "link");
    spit("target", "hello");
    spit("plain", "p");
    auto no_read = [&](const string& p) { mon::ctx("read of '%s' must be refused", p.substr(0, 60).c_str()); MON_CHECK(!io.read(p, got), "files.refuse", "read of '%s' reported success with %zu bytes", p.substr(0, 60).c_str(), got.size()); mon::eval(); };
    auto no_write = [&](const string& p, const string& d) { mon::ctx("write of %zu bytes to '%s' must be refused", d.size(), p.substr(0, 60).c_str()); MON_CHECK(!io.write(p, d), "files.refuse", "write of %zu bytes to '%s' reported success", d.size(), p.substr(0, 60).c_str()); mon::eval(); };
    for(int i = 0; i < 3; i++) {
        no_read("missing"); no_read("dir"); no_read("."); no_read("loop"); no_read("plain/x"); no_read(""); no_read("no/such/dir/file"); no_read(string(5000, 'n'));
        no_write("dir", "x"); no_write("loop", "x"); no_write("plain/x", "x"); no_write("", "x"); no_write("no/such/dir/file", "x"); no_write(string(300, 'n'), "x");
        no_write("/dev/full", "x"); no_write("/dev/full", big);
    }
    MON_CHECK(io.read("link", got) && got == "hello", "files.read", "reading through a symbolic link");
    MON_CHECK(io.write("link", "bye") && slurp("target") == "bye", "files.write", "writing through a symbolic link");
    MON_CHECK(io.write("/dev/null", big), "files.write", "writing to /dev/null failed");
    // special files report size zero but have contents
    spit("stat_ref", slurp("/proc/self/cmdline"));
    MON_CHECK(io.read("/proc/self/cmdline", got) ? got == slurp("stat_ref") : true, "files.read", "reading a special file reported success with %zu of %zu bytes", got.size(), slurp("stat_ref").size());
    MON_CHECK(fds_are(fd0), "files.fd", "%d descriptors before, %d after refused operations", fd0, n_fds());
    (void)r;
}
// Limits that apply to a whole process: run in a child that reports by exit status.
static void in_limits(Io, const char* what, std::function<int()> fn) {
    mon::ctx("%s", what);
    auto c = mon::in_child([&] { return fn(); });
    if(!c.exited || c.code) mon::violation("files.limits", "%s: %s (code %d) %s", what, c.code == 3 ? "success reported with wrong contents" : c.code == 4 ? "descriptor leak" : c.code == 5 ? "refused although allowed" : "died", c.code, c.output.substr(0, 300).c_str());
    mon::eval();
    mon::count("limit_children");
}
static void limits(Rng& r) {
    for(int i = 0; i < 6; i++) {
        u64 lim = 1000 + r(60000);
        bool async = i & 1;
        in_limits(Io{}, "file size limit", [=]() -> int {
            signal(SIGXFSZ, SIG_IGN);
            struct rlimit l = {lim, lim};
            setrlimit(RLIMIT_FSIZE, &l);
            Async::Pool<>* pool = async ? new Async::Pool<> : nullptr;
            Io io{pool};
            int f0 = n_fds();
            string d(lim * 2, 'z'), small(lim, 'y');
            string name = "limited" + std::to_string(i);
            bool ok = io.write(name, d);
            if(ok) return 3;
            if(!fds_are(f0)) return 4;
            if(!io.write(name, small)) return 5;
            return slurp(name) == small ? 0 : 3;
        });
    }
    in_limits(Io{}, "no permission", []() -> int {
        spit("secret", "secret");
        chmod("secret", 0);
        spit("readonly", "ro");
        chmod("readonly", 0444);
        chmod(".", 0755);
        if(setgid(65534) || setuid(65534)) return 0;
        int f0 = n_fds();
        Io io;
        string got;
        if(io.read("secret", got)) return 3;
        if(io.write("readonly", "changed") || slurp("readonly") != "ro") return 3;
        if(!fds_are(f0)) return 4;
        if(access("readonly", R_OK) == 0 && (!io.read("readonly", got) || got != "ro")) return 5;
        return 0;
    });
    in_limits(Io{}, "descriptor table full", []() -> int {
        spit("one", "1");
        int f0 = n_fds();
        struct rlimit l = {(rlim_t)f0 + 8, (rlim_t)f0 + 8};
        setrlimit(RLIMIT_NOFILE, &l);
        std::vector<int> held;
        int fd;
        while((fd = dup(2)) >= 0) held.push_back(fd);
        Io io;
        string got;
        if(io.read("one", got)) return 3;
        if(io.write("one", "2")) return 3;
        for(int h : held) close(h);
        if(!fds_are(f0)) return 4;
        if(!io.read("one", got) || got != "1") return 5;
        for(int i = 0; i < 100; i++) { if(!io.write("one", "3") || !io.read("one", got) || got != "3") return 5; if(io.read("nope", got)) return 3; if(io.read(".", got)) return 3; }
        return fds_are(f0) ? 0 : 4;
    });
}
static void late_errors(Rng& r, int cases) {
    int fd0 = n_fds();
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("close error case %d", c);
        string d = content(r), got;
        Io io;
        g_close_errors = 1;
        bool ok = io.write("late", d);
        bool met = g_close_errors == 0;
        g_close_errors = 0;
        if(met) MON_CHECK(!ok, "files.write", "closing the written file failed but the write reported success");
        spit("late", d);
        g_close_errors = 1;
        ok = io.read("late", got);
        g_close_errors = 0;
        if(ok) MON_CHECK(got == d, "files.read", "read reported success with other contents");
        mon::count("failing_closes");
        mon::eval(2);
    }
    MON_CHECK(fds_are(fd0), "files.fd", "%d descriptors before, %d after failing closes", fd0, n_fds());
}
// ---- modification times
static void set_time(const string& p, time_t s) { struct timespec t[2] = {{s, 0}, {s, 0}}; utimensat(AT_FDCWD, p.c_str(), t, 0); }
static void times(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        mon::ctx("times %d", c);
        string a = "ta", b = "tb";
        spit(a, "1");
        spit(b, "2");
        time_t x = 1000000000 + (time_t)r(1000000000), y = r.chance(30) ? x : r.chance(50) ? x + (time_t)r(3) : 1000000000 + (time_t)r(1000000000);
        set_time(a, x);
        set_time(b, y);
        Path pa(a), pb(b), pm("not there");
        auto ta = Files::last_write_time(pa.view()), tb = Files::last_write_time(pb.view());
        MON_CHECK(ta.ok() && tb.ok(), "files.time", "last_write_time failed on an existing file");
        if(ta.ok() && tb.ok()) {
            MON_CHECK(Files::before(*ta, *tb) == (x < y), "files.time", "before() disagrees with modification times %ld, %ld", (long)x, (long)y);
            MON_CHECK(Files::before(*tb, *ta) == (y < x), "files.time", "before() disagrees with modification times %ld, %ld", (long)y, (long)x);
            MON_CHECK((*ta == *tb) == (x == y), "files.time", "equal and different times are confused");
        }
        MON_CHECK(!Files::last_write_time(pm.view()).ok(), "files.time", "a missing file has a modification time");
        // a symbolic link has the time of the file it leads to
        remove("tl");
        if(symlink("ta", "tl") == 0) { Path pl("tl"); auto tl = Files::last_write_time(pl.view()); MON_CHECK(tl.ok() && *tl == *ta, "files.time", "a link's modification time differs from its file's"); }
        Files::Write_Watcher w{pa.view()};
        MON_CHECK(w.path() == pa.view(), "files.watch", "a watcher forgot its path");
        time_t cur = x;
        for(int i = 0; i < 8; i++) {
            int op = (int)r(5);
            bool expect = false;
            if(op == 4) { cur -= 100 + (time_t)r(1000); set_time(a, cur); (void)w.poll(); MON_CHECK(!w.poll(), "files.watch", "poll() reports the same time twice"); continue; } // restored from an older copy
            if(op == 0) { cur += 1 + (time_t)r(50); spit(a, content(r)); set_time(a, cur); expect = true; }
            else if(op == 1) { remove(a.c_str()); MON_CHECK(!w.poll(), "files.watch", "poll reports a modification of a missing file"); spit(a, "again"); cur += 5; set_time(a, cur); expect = true; }
            bool got = w.poll();
            MON_CHECK(got == expect, "files.watch", "poll() returned %d, the file was%s modified since the last poll", (int)got, expect ? "" : " not");
            MON_CHECK(!w.poll(), "files.watch", "poll() reports the same modification twice");
            if(r.chance(30)) { auto d = w.read(); string now = slurp(a); MON_CHECK(d.ok() && d->length() == now.size() && (now.empty() || !memcmp(d->data(), now.data(), now.size())), "files.watch", "the watcher reads other contents"); }
            mon::eval();
        }
        Files::Write_Watcher none{String_View{}};
        MON_CHECK(!none.poll(), "files.watch", "an empty watcher polls true");
        remove("later");
        Path pl("later");
        Files::Write_Watcher l{pl.view()};
        MON_CHECK(!l.poll(), "files.watch", "poll is true before the file exists");
        spit("later", "x");
        MON_CHECK(l.poll(), "files.watch", "the creation of the file was not noticed");
    }
}
// ---- many threads on their own files: a descriptor closed twice or crossed shows as wrong contents
static void parallel(Rng& r, int rounds) {
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("parallel round %d", k);
        int fd0 = n_fds();
        {
            std::unique_ptr<Async::Pool<>> pool;
            if(k & 1) pool = std::make_unique<Async::Pool<>>();
            std::vector<std::thread> ts;
            for(int t = 0; t < 8; t++)
                ts.emplace_back([&, t, s = r.next()] {
                    Rng q(s);
                    Io io{pool.get()};
                    string name = "par" + std::to_string(t);
                    for(int i = 0; i < 25; i++) {
                        string d = q.chance(20) ? content(q) : string(q(3000), (char)('a' + t)), got;
                        if(!io.write(name, d)) { mon::violation("files.parallel", "write failed under concurrency (errno %d)", errno); return; }
                        if(q.chance(10)) (void)io.read("does not exist", got);
                        if(!io.read(name, got) || got != d) { mon::violation("files.parallel", "read back %zu bytes, wrote %zu", got.size(), d.size()); return; }
                        mon::eval();
                    }
                });
            for(auto& t : ts) t.join();
        }
        MON_CHECK(fds_are(fd0), "files.fd", "%d descriptors before, %d after", fd0, n_fds());
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C23", "hash of (size, injected short transfers, injected interruptions)");
    signal(SIGXFSZ, SIG_IGN);
    Rng r(mon::S().seed);
    char dir[64];
    snprintf(dir, sizeof dir, "c23_%d", (int)getpid());
    if(mkdir(dir, 0755) || chdir(dir)) { perror("scratch"); return 2; }
    if(mon::want("limits")) limits(r);
    if(mon::want("plain")) round_trips(r, Io{}, (int)mon::n(2500, 80000));
    if(mon::want("refused")) refused(r, Io{});
    if(mon::want("late")) late_errors(r, (int)mon::n(100, 3000));
    if(mon::want("times")) times(r, (int)mon::n(150, 4000));
    if(mon::want("async")) {
        Async::Pool<> pool;
        int fd0 = n_fds();
        round_trips(r, Io{&pool}, (int)mon::n(1500, 40000));
        refused(r, Io{&pool});
        MON_CHECK(fds_are(fd0), "files.fd", "%d descriptors before, %d after asynchronous operations", fd0, n_fds());
    }
    if(mon::want("parallel")) parallel(r, (int)mon::n(8, 200));
    Profile::finalize();
    return mon::finish();
}
