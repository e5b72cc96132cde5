// Delay injection at basic-block granularity: every instrumented edge of rpp and of the harness may
// yield or sleep, chosen pseudo-randomly per thread. Compiled without instrumentation itself.
#include <cstdint>
#include <cstdlib>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <atomic>
static std::atomic<uint64_t> g_edges{0}, g_delays{0}, g_threads{0};
static uint32_t g_rate = 0;
static uint64_t g_seed = 1;
static std::atomic<uint32_t> g_n{0};
static thread_local uint64_t st = 0;
extern "C" uint64_t mon_chaos_edges() { return g_edges.load(); }
extern "C" uint64_t mon_chaos_delays() { return g_delays.load(); }
extern "C" void mon_chaos_rate(uint32_t r) { g_rate = r; }
extern "C" uint32_t mon_chaos_get_rate() { return g_rate; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
    if(start == stop || *start) return;
    if(const char* e = getenv("MON_CHAOS")) g_rate = (uint32_t)atoi(e);
    if(const char* e = getenv("MON_SEED")) g_seed = strtoull(e, nullptr, 10);
    for(uint32_t* x = start; x < stop; x++) *x = g_n.fetch_add(1) + 1;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
    if(*guard & 0x7fffffff && !(*guard & 0x80000000u)) { // first hit of this edge
        *guard |= 0x80000000u;
        g_edges.fetch_add(1, std::memory_order_relaxed);
    }
    uint32_t rate = g_rate;
    if(!rate) return;
    uint64_t s = st;
    if(!s) s = g_seed * 0x9E3779B97F4A7C15ull + g_threads.fetch_add(1) * 0xD1B54A32D192ED03ull + 77;
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    st = s;
    if((uint32_t)(s >> 33) % rate) return;
    g_delays.fetch_add(1, std::memory_order_relaxed);
    uint32_t k = (uint32_t)(s >> 20) & 15;
    if(k < 10) sched_yield();
    else if(k < 15) { struct timespec t = {0, (long)((s >> 8) % 30000)}; nanosleep(&t, nullptr); }
    else { struct timespec t = {0, (long)((s >> 8) % 400000)}; nanosleep(&t, nullptr); }
}
