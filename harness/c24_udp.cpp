// C24: UDP sockets. rpp sockets talk to each other and to plain POSIX sockets over loopback; every datagram handed out is
// compared with the ones sent (contents, length, sender); descriptors are followed across every move; address texts
// are exactly sized and unterminated.
#include "mon.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <rpp/base.h>
#include <rpp/net.h>
using namespace rpp;
using mon::Rng;
using std::string;

// ---- system calls made by the library
static std::atomic<int> bad_closes{0};
static thread_local int recv_fault = 0;
extern "C" int __real_close(int);
extern "C" ssize_t __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
extern "C" int __wrap_close(int fd) {
    int r = __real_close(fd);
    if(r) bad_closes++;
    return r;
}
extern "C" ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
    if(recv_fault) { errno = recv_fault; return -1; }
    return __real_recvfrom(fd, p, n, fl, a, l);
}

static int n_fds() { return mon::fds(); }
static bool fds_are(int n) { return mon::fds_are(n); }
struct Text { char* p; size_t n; explicit Text(const string& s) : p((char*)malloc(s.size() + !s.size())), n(s.size()) { memcpy(p, s.data(), n); } ~Text() { free(p); } Text(const Text&) = delete; String_View view() const { return String_View{(const u8*)p, n}; } };
static Net::Address addr(const string& ip, int port) { Text t(ip); return Net::Address{t.view(), (u16)port}; }
static string ip_text(uint32_t host) { return mon::fmt("%u.%u.%u.%u", host >> 24, host >> 16 & 255, host >> 8 & 255, host & 255); }

// The outside world: a plain socket.
struct Raw {
    int fd = -1;
    uint32_t ip;
    int port = 0;
    explicit Raw(uint32_t ip = 0x7f000001u) : ip(ip) {
        fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(ip);
        if(bind(fd, (sockaddr*)&a, sizeof a)) { perror("bind"); _exit(2); }
        socklen_t l = sizeof a;
        getsockname(fd, (sockaddr*)&a, &l);
        port = ntohs(a.sin_port);
    }
    ~Raw() { ::close(fd); }
    Raw(const Raw&) = delete;
    bool send(uint32_t to_ip, int to_port, const string& d) {
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(to_ip);
        a.sin_port = htons((uint16_t)to_port);
        return sendto(fd, d.data(), d.size(), 0, (sockaddr*)&a, sizeof a) == (ssize_t)d.size();
    }
    bool recv(string& d, uint32_t& from_ip, int& from_port, int ms = 2000) {
        char b[70000];
        double end = mon::now() + ms / 1000.0;
        for(;;) {
            sockaddr_in a{};
            socklen_t l = sizeof a;
            ssize_t k = __real_recvfrom(fd, b, sizeof b, MSG_DONTWAIT, (sockaddr*)&a, &l);
            if(k >= 0) { d.assign(b, (size_t)k); from_ip = ntohl(a.sin_addr.s_addr); from_port = ntohs(a.sin_port); return true; }
            if(mon::now() > end) return false;
            usleep(50);
        }
    }
};
static void fill(Net::Packet& p, const string& d) { memcpy(p.data(), d.data(), d.size()); }
static string content(Rng& r, size_t n) {
    string s(n, 0);
    uint64_t x = r.next();
    for(size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = (char)(x >> 56); }
    return s;
}
static size_t size_of(Rng& r) { size_t c = Net::Packet::capacity; return r.chance(15) ? 0 : r.chance(30) ? r(20) : r.chance(20) ? c - r(3) : r(c + 1); }
// Waits for the next datagram (loopback delivers at once; the wait only covers a loaded machine).
static bool next(Net::Udp& u, Net::Packet& p, u64& len, Net::Address& from, int ms = 2000) {
    double end = mon::now() + ms / 1000.0;
    for(;;) {
        auto d = u.recv(p);
        if(d.ok()) { len = d->length; from = d->from; return true; }
        if(mon::now() > end) return false;
        usleep(50);
    }
}
struct Sock { // an rpp socket bound to an unused loopback port
    std::unique_ptr<Net::Udp> u = std::make_unique<Net::Udp>();
    int port = 0;
    explicit Sock(Raw& probe) {
        u->bind(addr("127.0.0.1", 0));
        auto pk = std::make_unique<Net::Packet>();
        memcpy(pk->data(), "probe", 5);
        (void)u->send(addr("127.0.0.1", probe.port), *pk, 5);
        string d;
        uint32_t ip = 0;
        MON_CHECK(probe.recv(d, ip, port) && d == "probe" && ip == 0x7f000001u, "udp.send", "a five byte datagram to a plain socket arrived as '%s' (%zu bytes) from %s", d.c_str(), d.size(), ip_text(ip).c_str());
    }
};
// ---- datagrams between rpp sockets and plain ones
static void exchange(Rng& r, int cases) {
    for(int c = 0; c < cases && !mon::violations(); c++) {
        Raw raw(r.chance(50) ? 0x7f000001u : 0x7f000000u | (uint32_t)(1 + r(0xfffffd)));
        Raw probe;
        std::vector<Sock> socks;
        int ns = 1 + (int)r(3);
        for(int i = 0; i < ns; i++) socks.emplace_back(probe);
        std::vector<std::deque<std::pair<string, int>>> pend(ns); // (bytes, sender port); sender may be any of them
        auto pk = std::make_unique<Net::Packet>();               // on the heap: ASan sees writes past it
        int ops = 10 + (int)r(60);
        for(int o = 0; o < ops; o++) {
            int to = (int)r(ns), k = (int)r(7);
            mon::ctx("exchange case %d op %d/%d kind %d", c, o, ops, k);
            if(k <= 1 && pend[to].size() < 24) { // rpp -> rpp
                int from = (int)r(ns);
                string d = content(r, size_of(r));
                fill(*pk, d);
                u64 n = socks[from].u->send(addr("127.0.0.1", socks[to].port), *pk, d.size());
                MON_CHECK(n == d.size(), "udp.send", "send of %zu bytes returned %llu", d.size(), (unsigned long long)n);
                MON_CHECK(!memcmp(pk->data(), d.data(), d.size()), "udp.send", "send changed the packet");
                pend[to].push_back({d, socks[from].port});
            } else if(k == 2 && pend[to].size() < 24) { // plain -> rpp, sometimes larger than a packet
                string d = content(r, r.chance(30) ? Net::Packet::capacity + 1 + r(r.chance(50) ? 3 : 30000) : size_of(r));
                if(raw.send(0x7f000001u, socks[to].port, d)) pend[to].push_back({d, -1});
            } else if(k == 3) { // rpp -> plain
                string d = content(r, size_of(r)), got;
                fill(*pk, d);
                u64 n = socks[to].u->send(addr(ip_text(raw.ip), raw.port), *pk, d.size());
                uint32_t ip = 0;
                int port = 0;
                MON_CHECK(n == d.size() && raw.recv(got, ip, port), "udp.send", "a datagram of %zu bytes to %s:%d did not arrive (send returned %llu)", d.size(), ip_text(raw.ip).c_str(), raw.port, (unsigned long long)n);
                MON_CHECK(got == d && port == socks[to].port, "udp.send", "sent %zu bytes from port %d, the receiver got %zu bytes (equal %d) from port %d", d.size(), socks[to].port, got.size(), got == d, port);
            } else { // receive
                memset(pk->data(), 0xAB, Net::Packet::capacity);
                if(pend[to].empty()) {
                    MON_CHECK(!socks[to].u->recv(*pk).ok(), "udp.recv-none", "recv reports a datagram although nothing is pending");
                    mon::count("empty_receives");
                } else {
                    u64 len = 0;
                    Net::Address from;
                    bool got = next(*socks[to].u, *pk, len, from);
                    MON_CHECK(got, "udp.lost", "a pending datagram of %zu bytes never arrived", pend[to].front().first.size());
                    if(!got) break;
                    auto [want, sender] = pend[to].front();
                    pend[to].pop_front();
                    if(want.size() <= Net::Packet::capacity) {
                        MON_CHECK(len == want.size(), "udp.length", "datagram of %zu bytes received with length %llu", want.size(), (unsigned long long)len);
                        MON_CHECK(len > Net::Packet::capacity || string((char*)pk->data(), len) == want, "udp.bytes", "datagram of %zu bytes arrived with other bytes", want.size());
                    } else {
                        MON_CHECK(len > Net::Packet::capacity, "udp.truncated", "datagram of %zu bytes reported as a whole one of %llu bytes", want.size(), (unsigned long long)len);
                        mon::count("oversized");
                    }
                    // the reported sender is where an answer must go
                    string reply = content(r, 1 + r(8)), back;
                    fill(*pk, reply);
                    (void)socks[to].u->send(from, *pk, reply.size());
                    if(sender == -1) {
                        uint32_t ip = 0;
                        int port = 0;
                        MON_CHECK(raw.recv(back, ip, port) && back == reply && port == socks[to].port, "udp.from", "an answer to the reported sender did not reach it");
                    } else {
                        int s = 0;
                        while(socks[s].port != sender) s++;
                        pend[s].push_back({reply, socks[to].port});
                    }
                    mon::distinct(mon::mix(want.size(), sender == -1));
                    mon::count("datagrams");
                }
            }
            mon::eval();
        }
    }
}
// ---- addresses
static void addresses(Rng& r, int cases) {
    int probe_port = 0;
    {
        Raw probe;
        probe_port = probe.port;
    }
    static const char* tails[] = {"", "1", "9", ".", ".1", "x", " ", ":80", "\n", "255", "/8"};
    Net::Udp u;
    auto pk = std::make_unique<Net::Packet>();
    for(int c = 0; c < cases && !mon::violations(); c++) {
        uint32_t ip = 0x7f000000u | (uint32_t)(r.chance(40) ? 1 + r(300) : 1 + r(0xfffffd));
        string text = ip_text(ip), tail = tails[r(11)];
        mon::ctx("address '%s' followed by '%s'", text.c_str(), tail.c_str());
        Raw at(ip);
        Text whole(text + tail), exact(text);
        Net::Address a = tail.empty() ? Net::Address{exact.view(), (u16)at.port} : Net::Address{String_View{(const u8*)whole.p, text.size()}, (u16)at.port};
        string d = content(r, 1 + r(16)), got;
        fill(*pk, d);
        (void)u.send(a, *pk, d.size());
        uint32_t fip = 0;
        int fport = 0;
        MON_CHECK(at.recv(got, fip, fport, 3000) && got == d, "udp.address", "the address built from '%s' (followed by '%s') port %d does not denote it", text.c_str(), tail.c_str(), at.port);
        Net::Address copy = a, assigned{(u16)1};
        assigned = copy;
        (void)u.send(assigned, *pk, d.size());
        MON_CHECK(at.recv(got, fip, fport, 3000) && got == d, "udp.address", "a copy of an address denotes another one");
        mon::eval();
        mon::distinct(mon::mix(ip, mon::hstr(tail)));
    }
    // a port alone: any local address
    for(int c = 0; c < 20 && !mon::violations(); c++) {
        int port;
        { Raw tmp; port = tmp.port; }
        mon::ctx("wildcard address port %d", port);
        sockaddr_in probe_addr{};
        probe_addr.sin_family = AF_INET;
        probe_addr.sin_port = htons((uint16_t)port);
        int t = socket(AF_INET, SOCK_DGRAM, 0);
        bool free_ = !bind(t, (sockaddr*)&probe_addr, sizeof probe_addr);
        ::close(t);
        if(!free_) continue;
        Net::Udp w;
        w.bind(Net::Address{(u16)port});
        Raw raw;
        for(uint32_t ip : {0x7f000001u, 0x7f000002u, 0x7f030201u}) {
            string d = content(r, 1 + r(30));
            raw.send(ip, port, d);
            u64 len = 0;
            Net::Address from;
            MON_CHECK(next(w, *pk, len, from) && len == d.size() && string((char*)pk->data(), len) == d, "udp.wildcard", "a socket bound to port %d on any address did not get a datagram for %s", port, ip_text(ip).c_str());
        }
        mon::eval();
    }
    // texts that denote no address
    for(const char* bad : {"", "localhost", "256.0.0.1", "1.2.3", "1.2.3.4.5", "1.2.3.4 ", " 1.2.3.4", "1..2.3", "::1", "0x7f.0.0.1", "1.2.3.-4", "127.0.0.1:80", "255.255.255.2550", "127.000.000.0011", "255.255.255.25500", "255.255.255.255x", "1111111111111111", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "127.0.0.1111111111111111111111111111111111111111111"}) {
        mon::ctx("not an address: '%s'", bad);
        string b = bad;
        auto ch = mon::in_child([&]() -> int { Text t(b); Net::Address a{t.view(), 80}; (void)a; return 42; });
        MON_CHECK(!(ch.exited && ch.code == 42), "udp.address", "'%s' was accepted as an address", bad);
        MON_CHECK(!mon::sanitizer_text(ch.output), "udp.address", "'%s': %s", bad, ch.output.substr(0, 400).c_str());
        mon::eval();
    }
}
// ---- moves
static void moves(Rng& r, int cases) {
    Raw probe;
    for(int c = 0; c < cases && !mon::violations(); c++) {
        int fd0 = n_fds();
        bad_closes = 0;
        {
            struct Slot { std::unique_ptr<Net::Udp> u; int port = 0; bool live = false; };
            std::vector<Slot> s(4);
            auto pk = std::make_unique<Net::Packet>();
            std::vector<int> fillers;
            int ops = 5 + (int)r(40);
            for(int o = 0; o < ops && !mon::violations(); o++) {
                int i = (int)r(4), j = (int)r(4), k = (int)r(5);
                mon::ctx("moves case %d op %d kind %d %d<-%d", c, o, k, i, j);
                if(k == 0 && !s[i].u) { Sock n(probe); s[i].u = std::move(n.u); s[i].port = n.port; s[i].live = true; }
                else if(k == 1 && s[i].u && s[j].u && i != j) { *s[i].u = rpp::move(*s[j].u); s[i].live = s[j].live; s[i].port = s[j].port; s[j].live = false; mon::count("move_assigns"); }
                else if(k == 2 && !s[i].u && s[j].u) { s[i].u = std::make_unique<Net::Udp>(rpp::move(*s[j].u)); s[i].live = s[j].live; s[i].port = s[j].port; s[j].live = false; mon::count("move_constructions"); }
                else if(k == 3 && s[i].u) { s[i].u.reset(); s[i].live = false; }
                else if(k == 4) fillers.push_back(dup(2)); // takes freed numbers: a second close would hit it
                for(auto& x : s)
                    if(x.live) {
                        string d = content(r, 1 + r(10));
                        probe.send(0x7f000001u, x.port, d);
                        u64 len = 0;
                        Net::Address from;
                        MON_CHECK(next(*x.u, *pk, len, from) && len == d.size() && string((char*)pk->data(), len) == d, "udp.move", "the socket at port %d is no longer the one that was moved", x.port);
                    }
                int live = 0;
                for(auto& x : s) live += x.live;
                MON_CHECK(fds_are(fd0 + live + (int)fillers.size()), "udp.fd", "%d sockets are alive but %d descriptors more are open", live, n_fds() - fd0 - (int)fillers.size());
                mon::distinct(mon::mix(mon::mix(k, live), mon::mix(i, j)));
                mon::eval();
            }
            s.clear();
            for(int f : fillers) MON_CHECK(!::close(f), "udp.fd", "a descriptor that belongs to somebody else was closed");
        }
        MON_CHECK(fds_are(fd0), "udp.fd", "%d descriptors before, %d after", fd0, n_fds());
        MON_CHECK(bad_closes == 0, "udp.fd", "%d closes of a descriptor that was not open", bad_closes.load());
    }
}
// ---- failing receives never turn into a datagram
static void faults() {
    for(int e : {EAGAIN, EINTR, ECONNREFUSED, ENOMEM, ENOTCONN, EBADF}) {
        mon::ctx("recvfrom fails with errno %d", e);
        auto ch = mon::in_child([&]() -> int {
            Net::Udp u;
            auto pk = std::make_unique<Net::Packet>();
            recv_fault = e;
            auto d = u.recv(*pk);
            recv_fault = 0;
            return d.ok() ? 43 : 42;
        });
        MON_CHECK(!(ch.exited && ch.code == 43), "udp.fault", "recv reports a datagram although the system call failed with errno %d", e);
        MON_CHECK(e != EAGAIN || (ch.exited && ch.code == 42), "udp.fault", "recv on an empty socket does not report 'nothing'");
        MON_CHECK(!mon::sanitizer_text(ch.output), "udp.fault", "%s", ch.output.substr(0, 400).c_str());
        mon::eval();
    }
}
// ---- text that is no IPv4 address never becomes one
static void malformed() {
    for(const char* t : {"", ".", "127", "127.0.0", "127.0.0.", "127.0.0.1.", "127.0.0.1.1", "256.0.0.1", "127.0.0.256", "127.0.0.1000", "127,0,0,1", "127.0.0,1", "1.2.3.-4", "1.2.3.+4", "1..2.3", "1.2.3.a", "0x7f.0.0.1",
                         "::1", "localhost", " 1.2.3.4", "1.2.3.4 ", "1.2.3.4x", "1.2.3.4:80", "255.255.255.255.", "111.222.111.2222", "1.2.3.4garbage that is long"}) {
        mon::ctx("malformed address '%s'", t);
        auto ch = mon::in_child([&]() -> int {
            Net::Address a{String_View{reinterpret_cast<const rpp::u8*>(t), strlen(t)}, rpp::u16{80}};
            return 43;
        });
        MON_CHECK(!(ch.exited && ch.code == 43), "udp.address-malformed", "'%s' was accepted as an address", t);
        MON_CHECK(!mon::sanitizer_text(ch.output), "udp.address-malformed", "'%s': %s", t, ch.output.substr(0, 400).c_str());
        mon::eval();
        mon::distinct(mon::hstr(t));
    }
}
// ---- many senders, one receiver
static void crowd(Rng& r, int rounds) {
    for(int k = 0; k < rounds && !mon::violations(); k++) {
        mon::ctx("crowd round %d", k);
        Raw probe;
        Sock rx(probe);
        const int T = 6, N = 300;
        std::atomic<int> done{0};
        std::vector<std::thread> ts;
        for(int t = 0; t < T; t++)
            ts.emplace_back([&, t, s = r.next()] {
                Rng q(s);
                Net::Udp u;
                auto pk = std::make_unique<Net::Packet>();
                for(int i = 0; i < N; i++) {
                    size_t n = 16 + q(q.chance(80) ? 40 : 1400);
                    uint32_t h[2] = {(uint32_t)t, (uint32_t)i};
                    memcpy(pk->data(), h, 8);
                    for(size_t b = 8; b < n; b++) pk->data()[b] = (u8)(t * 31 + i * 7 + b);
                    if(u.send(addr("127.0.0.1", rx.port), *pk, n) != n) { mon::violation("udp.send", "short send"); return; }
                    if(i % 8 == 0) usleep(200);
                }
                done++;
            });
        auto pk = std::make_unique<Net::Packet>();
        int last[T], got = 0;
        for(int& l : last) l = -1;
        for(;;) {
            bool over = done == T || mon::violations();
            auto d = rx.u->recv(*pk);
            if(!d.ok()) { if(over) break; continue; }
            uint32_t h[2] = {99, 0};
            if(d->length >= 16 && d->length <= Net::Packet::capacity) memcpy(h, pk->data(), 8);
            MON_CHECK(h[0] < T && (int)h[1] > last[h[0]] && h[1] < N, "udp.crowd", "datagram of length %llu: sender %u number %u after %d (duplicated, reordered or mixed)", (unsigned long long)d->length, h[0], h[1], h[0] < T ? last[h[0]] : -1);
            if(h[0] >= T) break;
            last[h[0]] = (int)h[1];
            for(u64 b = 8; b < d->length; b++)
                if(pk->data()[b] != (u8)(h[0] * 31 + h[1] * 7 + b)) { mon::violation("udp.crowd", "byte %llu of a datagram of %llu bytes is wrong", (unsigned long long)b, (unsigned long long)d->length); break; }
            got++;
            mon::eval();
        }
        for(auto& t : ts) t.join();
        MON_CHECK(got > T * N / 20, "udp.crowd", "only %d of %d datagrams arrived", got, T * N);
        mon::count("crowd_datagrams", (uint64_t)got);
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C24", "hash of (datagram size, kind of sender), (address, following text), (move operation, live sockets)");
    Rng r(mon::S().seed);
    if(mon::want("exchange")) exchange(r, (int)mon::n(900, 15000));
    if(mon::want("addresses")) addresses(r, (int)mon::n(3000, 60000));
    if(mon::want("moves")) moves(r, (int)mon::n(700, 10000));
    if(mon::want("faults")) faults();
    if(mon::want("malformed")) malformed();
    if(mon::want("crowd")) crowd(r, (int)mon::n(10, 300));
    Profile::finalize();
    return mon::finish();
}
