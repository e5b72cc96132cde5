// C12: Range_Allocator - disjoint, aligned, complete ranges; coalescing; exact statistics; moves; threads.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/range_allocator.h>
using namespace mon;
using rpp::u64;

// Reference: occupied intervals [start,end) where start = offset - padding. Gaps are the maximal free runs.
struct Model {
    uint64_t space = 0;
    std::map<uint64_t, uint64_t> used; // start -> end
    uint64_t high = 0, allocs = 0, frees = 0, alloc_sz = 0, free_sz = 0;
    std::vector<std::pair<uint64_t, uint64_t>> gaps() const {
        std::vector<std::pair<uint64_t, uint64_t>> g;
        uint64_t at = 0;
        for(auto& [s, e] : used) {
            if(s > at) g.push_back({at, s});
            at = e;
        }
        if(at < space) g.push_back({at, space});
        return g;
    }
    uint64_t used_size() const {
        uint64_t n = 0;
        for(auto& [s, e] : used) n += e - s;
        return n;
    }
    bool fits(uint64_t size, uint64_t al) const {
        for(auto& [s, e] : gaps()) {
            uint64_t pad = s % al ? al - s % al : 0;
            if(e - s >= pad && e - s - pad >= size) return true;
        }
        return false;
    }
};

template<typename RA> struct Live { typename RA::Range r; uint64_t off, size, al, start, end; };

template<typename RA, size_t B>
static void check_stats(RA& ra, Model& m, const char* after) {
    auto st = ra.statistics();
    auto g = m.gaps();
    uint64_t fs = 0;
    for(auto& [s, e] : g) fs += e - s;
    uint64_t sum = 0;
    for(size_t i = 0; i < B; i++) sum += st.bucket_sizes[i];
    MON_CHECK(st.free_size + st.allocated_size == m.space && st.total_capacity == m.space, "range.stats", "%s: free %llu + allocated %llu != capacity %llu (%llu)", after,
              (unsigned long long)st.free_size, (unsigned long long)st.allocated_size, (unsigned long long)m.space, (unsigned long long)st.total_capacity);
    MON_CHECK(st.free_size == fs, "range.stats", "%s: free_size %llu expected %llu", after, (unsigned long long)st.free_size, (unsigned long long)fs);
    MON_CHECK(st.free_blocks == g.size(), "range.coalesce", "%s: free_blocks %llu but the free space has %zu maximal runs", after, (unsigned long long)st.free_blocks, g.size());
    MON_CHECK(sum == st.free_blocks, "range.stats", "%s: bucket sum %llu free_blocks %llu", after, (unsigned long long)sum, (unsigned long long)st.free_blocks);
    MON_CHECK(st.allocated_blocks == m.used.size(), "range.stats", "%s: allocated_blocks %llu expected %zu", after, (unsigned long long)st.allocated_blocks, m.used.size());
    MON_CHECK(st.high_water == m.high, "range.stats", "%s: high_water %llu expected %llu", after, (unsigned long long)st.high_water, (unsigned long long)m.high);
    MON_CHECK(st.total_allocs == m.allocs && st.total_frees == m.frees && st.total_alloc_size == m.alloc_sz && st.total_free_size == m.free_sz, "range.stats", "%s: totals differ", after);
    eval();
}

template<typename RA, size_t B> static void history(Rng& r, const char* name, int steps) {
    Model m;
    int shape = (int)r(6);
    switch(shape) {
    case 0: m.space = 1 + r(16); break;
    case 1: m.space = 1 + r(300); break;
    case 2: m.space = 1ull << r.range(8, 20); break;
    case 3: m.space = r.range(1000, 1000000); break;
    case 4: m.space = 1ull << r.range(30, 63); break;
    default: m.space = ~0ull - r(1000); break;
    }
    auto* ra = new RA(m.space);
    std::vector<Live<RA>> live;
    uint64_t h = mix(m.space, B);
    check_stats<RA, B>(*ra, m, "construction");
    auto do_free = [&](size_t i) {
        auto l = live[i];
        live[i] = live.back();
        live.pop_back();
        ra->free(l.r);
        m.used.erase(l.start);
        m.frees++;
        m.free_sz += l.end - l.start;
    };
    int phase = 60;
    for(int s = 0; s < steps; s++) {
        if(s % 40 == 0) phase = (int)r.range(20, 85);
        ctx("%s space %llu step %d live %zu", name, (unsigned long long)m.space, s, live.size());
        if(r.chance(phase) || live.empty()) {
            uint64_t size, al;
            switch(r(7)) {
            case 0: size = 1 + r(8); break;
            case 1: size = 1 + r(m.space); break;
            case 2: size = 1 + r(1 + m.space / 8); break;
            case 3: size = 1ull << r(64); break;
            case 4: size = (1ull << r.range(1, 63)) + (r.chance(50) ? 1 : -1); break;
            case 5: { auto g = m.gaps(); size = g.empty() ? 1 : g[r(g.size())].second - g[0].first; if(!g.empty()) { auto& x = g[r(g.size())]; size = x.second - x.first + r(3); if(size > 1 && r.chance(60)) size -= 1; } if(!size) size = 1; break; }
            default: size = r.chance(3) ? ~0ull - r(4) : 1 + r(1 + m.space / 64); break;
            }
            switch(r(5)) {
            case 0: al = 1; break;
            case 1: al = 1ull << r(9); break;
            case 2: al = 1 + r(20); break;
            case 3: al = 1ull << r(64); break;
            default: al = 1 + r(1 + m.space); break;
            }
            bool expect = m.fits(size, al);
            auto before = m.gaps();
            auto o = ra->allocate(size, al);
            eval();
            if(!expect) count("refused"); else count("granted");
            MON_CHECK(o.ok() == expect, expect ? "range.false-failure" : "range.false-success", "%s: allocate(%llu, %llu) %s but the free runs say %s", name,
                      (unsigned long long)size, (unsigned long long)al, o.ok() ? "succeeded" : "failed", expect ? "it fits" : "it cannot fit");
            if(o.ok()) {
                auto rg = *o;
                Live<RA> l{rg, rg->offset, size, al, rg->offset - rg->padding(), 0};
                l.end = l.start + rg->padding() + rg->length();
                MON_CHECK(rg->length() >= size, "range.size", "asked %llu got length %llu", (unsigned long long)size, (unsigned long long)rg->length());
                MON_CHECK(l.off % al == 0, "range.align", "offset %llu not a multiple of %llu", (unsigned long long)l.off, (unsigned long long)al);
                MON_CHECK(rg->padding() < al, "range.padding", "padding %llu alignment %llu", (unsigned long long)rg->padding(), (unsigned long long)al);
                bool in = false;
                for(auto& [s0, e0] : before) in |= l.start >= s0 && l.end <= e0 && l.end > l.start;
                MON_CHECK(in, "range.overlap", "%s: [%llu,%llu) is not inside free space", name, (unsigned long long)l.start, (unsigned long long)l.end);
                if(violations()) break;
                live.push_back(l);
                m.used[l.start] = l.end;
                m.allocs++;
                m.alloc_sz += l.end - l.start;
                m.high = std::max(m.high, m.used_size());
            }
            h = mix(h, mix(size, al));
        } else
            do_free(r(live.size()));
        // previously handed out ranges never change
        if(!live.empty()) {
            auto& l = live[r(live.size())];
            MON_CHECK(l.r->offset == l.off && l.r->length() >= l.size && l.r->offset - l.r->padding() == l.start, "range.changed", "a live range changed");
        }
        check_stats<RA, B>(*ra, m, "step");
        if(violations()) break;
        if(r.chance(2)) { // moves, with live ranges
            count("moves");
            if(r.chance(50)) {
                auto* n = new RA(std::move(*ra));
                auto none = ra->allocate(1, 1);
                MON_CHECK(!none.ok(), "range.moved-from", "a moved-from allocator handed out space");
                delete ra;
                ra = n;
            } else {
                auto* n = r.chance(30) ? new RA() : new RA(1 + r(1000));
                if(r.chance(50)) { auto o = n->allocate(1, 1); if(o.ok()) n->free(*o); }
                *n = std::move(*ra);
                if(r.chance(50)) { // and back: the moved-from one must be usable again as a target
                    *ra = std::move(*n);
                    delete n;
                } else {
                    delete ra;
                    ra = n;
                }
            }
            check_stats<RA, B>(*ra, m, "move");
        }
        if(r.chance(1) && live.size() > 2) { while(!live.empty()) do_free(r(live.size())); check_stats<RA, B>(*ra, m, "drain"); }
    }
    if(!violations()) {
        while(!live.empty()) {
            do_free(r(live.size()));
            check_stats<RA, B>(*ra, m, "drain");
        }
        auto st = ra->statistics();
        MON_CHECK(st.free_blocks == 1 && st.free_size == m.space, "range.coalesce", "after freeing everything %llu blocks", (unsigned long long)st.free_blocks);
        st.assert_clear();
        auto o = ra->allocate(m.space, 1);
        MON_CHECK(o.ok() && (*o)->offset == 0, "range.false-failure", "the whole space could not be allocated when nothing is live");
        if(o.ok()) ra->free(*o);
    }
    distinct(h);
    if(r.chance(3)) sample(fmt("%s space %llu steps %d", name, (unsigned long long)m.space, steps));
    if(violations()) _exit(finish());
    delete ra;
}

// Threads share one allocator; every granted cell must be unowned.
template<typename RA, size_t B> static void threads(Rng& r, int round) {
    const uint64_t space = 1 << r.range(6, 12);
    RA ra(space);
    std::vector<std::atomic<int>> cell(space);
    for(auto& c : cell) c = 0;
    int T = (int)r.range(2, 6), iters = 150;
    ctx("threads round %d space %llu T %d", round, (unsigned long long)space, T);
    std::atomic<uint64_t> padded{0}, granted{0};
    struct Given { typename RA::Range r; uint64_t o, n; };
    std::mutex hm;
    std::vector<Given> handoff; // freed by another thread
    std::vector<std::thread> ts;
    uint64_t seed = r.next();
    for(int t = 0; t < T; t++)
        ts.emplace_back([&, t] {
            Rng q(seed + (uint64_t)t);
            std::vector<Given> mine;
            auto drop = [&](Given g) {
                for(uint64_t i = g.o; i < g.o + g.n; i++)
                    if(cell[i].exchange(0) != 1) violation("range.overlap", "a live cell lost its owner");
                ra.free(g.r);
            };
            for(int i = 0; i < iters; i++) {
                if(q.chance(60)) {
                    uint64_t size = 1 + q(space / 8), al = 1ull << q(4);
                    auto o = ra.allocate(size, al);
                    if(o.ok()) {
                        Given g{*o, (*o)->offset, (*o)->length()};
                        if(g.n < size || g.o % al || g.o + g.n > space) { violation("range.bounds", "bad range"); break; }
                        for(uint64_t k = g.o; k < g.o + g.n; k++)
                            if(cell[k].exchange(1) != 0) violation("range.overlap", "cell %llu handed out twice", (unsigned long long)k);
                        granted++;
                        mine.push_back(g);
                    }
                } else if(!mine.empty()) {
                    size_t k = q(mine.size());
                    Given g = mine[k];
                    mine[k] = mine.back();
                    mine.pop_back();
                    if(q.chance(30)) { std::lock_guard<std::mutex> l(hm); handoff.push_back(g); }
                    else drop(g);
                }
                if(q.chance(20)) {
                    Given g{}; bool have = false;
                    { std::lock_guard<std::mutex> l(hm); if(!handoff.empty()) { g = handoff.back(); handoff.pop_back(); have = true; } }
                    if(have) drop(g);
                }
                if(q.chance(5)) {
                    auto st = ra.statistics();
                    uint64_t sum = 0;
                    for(size_t b = 0; b < B; b++) sum += st.bucket_sizes[b];
                    if(st.free_size + st.allocated_size != space || sum != st.free_blocks) violation("range.stats", "statistics taken during concurrent use do not account for the space");
                }
            }
            for(auto& g : mine) drop(g);
        });
    for(auto& t : ts) t.join();
    for(auto& g : handoff) { for(uint64_t i = g.o; i < g.o + g.n; i++) cell[i] = 0; ra.free(g.r); }
    auto st = ra.statistics();
    MON_CHECK(st.free_blocks == 1 && st.free_size == space && st.allocated_blocks == 0 && st.allocated_size == 0, "range.coalesce", "space not whole after concurrent use: %llu blocks", (unsigned long long)st.free_blocks);
    MON_CHECK(st.total_allocs == granted.load() && st.total_frees == granted.load(), "range.stats", "totals after concurrent use");
    eval(granted.load());
    count("concurrent_grants", granted.load());
    distinct(mix(seed, granted.load()));
}

int main(int argc, char** argv) {
    init(argc, argv, "C12", "hash of (space, bucket configuration, request list) of one history, or (seed, grants) of one concurrent round");
    Rng r(S().seed);
    using D = rpp::Range_Allocator<>;
    using S0 = rpp::Range_Allocator<rpp::Mdefault, 64, 0>;
    using S1 = rpp::Range_Allocator<rpp::Mdefault, 4, 2>;
    using S2 = rpp::Range_Allocator<rpp::Mdefault, 2, 1>;
    using S3 = rpp::Range_Allocator<rpp::Mdefault, 1, 8>;
    if(want("history"))
        for(uint64_t i = 0; i < n(500, 20000); i++) {
            int steps = r.chance(10) ? 600 : 120;
            switch(i % 5) {
            case 0: history<D, 24>(r, "default", steps); break;
            case 1: history<S0, 64>(r, "64/0", steps); break;
            case 2: history<S1, 4>(r, "4/2", steps); break;
            case 3: history<S2, 2>(r, "2/1", steps); break;
            default: history<S3, 1>(r, "1/8", steps); break;
            }
        }
    if(want("empty")) {
        D d;
        auto o = d.allocate(1, 1);
        MON_CHECK(!o.ok(), "range.false-success", "an allocator without space handed out a range");
        auto st = d.statistics();
        st.assert_clear();
        D e(std::move(d));
        MON_CHECK(!e.allocate(1, 1).ok(), "range.false-success", "moved empty allocator");
        eval();
    }
    if(want("threads"))
        for(uint64_t i = 0; i < n(60, 3000); i++) {
            if(i % 2) threads<D, 24>(r, (int)i);
            else threads<S1, 4>(r, (int)i);
        }
    return finish();
}
