// Makes libgomp's synchronisation known to ThreadSanitizer, which does not see into it, and perturbs
// the schedule of parallel regions. Linked with --wrap; not instrumented itself.
#include <atomic>
#include <cstdint>
#include <sched.h>
#include <time.h>

extern "C"
{
void __tsan_acquire(void *);
void __tsan_release(void *);
void __real_GOMP_parallel(void (*fn)(void *), void * data, unsigned n, unsigned flags);
int omp_get_thread_num();
}

namespace H
{
std::atomic<uint64_t> g_regions{0}, g_threads{0}, g_delays{0};
std::atomic<uint64_t> g_orders{0}; // digest of the orders in which threads entered regions
std::atomic<uint32_t> g_delay_seed{0}; // 0: no delays
}

namespace
{

void delay(uint64_t & s)
{
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    unsigned const m = s % 16;
    if (m < 8) return;
    H::g_delays.fetch_add(1, std::memory_order_relaxed);
    if (m < 12) { for (unsigned i = s >> 8 & 3; i < 4; ++i) sched_yield(); return; }
    timespec t{0, long((s >> 16) % (m == 15 ? 200000 : 20000))};
    nanosleep(&t, nullptr);
}

struct Region
{
    void (*fn)(void *);
    void * data;
    uint64_t seed;
    char in, out;
    std::atomic<uint64_t> order{0};
    std::atomic<unsigned> entered{0};
};

void body(void * p)
{
    Region * r = static_cast<Region *>(p);
    uint64_t const me = omp_get_thread_num();
    uint64_t s = (r->seed + 1) * 0x9E3779B97F4A7C15ull ^ (me + 1) * 0xBF58476D1CE4E5B9ull;
    if (r->seed) delay(s);
    unsigned const pos = r->entered.fetch_add(1, std::memory_order_relaxed);
    r->order.fetch_add((me + 1) << (6 * (pos % 10)), std::memory_order_relaxed);
    __tsan_acquire(&r->in);
    r->fn(r->data);
    __tsan_release(&r->out);
    if (r->seed) delay(s);
}

} // namespace

// no ordering beyond what OpenMP gives: all threads start after the region is entered, the region is
// left after all have ended
extern "C" void __wrap_GOMP_parallel(void (*fn)(void *), void * data, unsigned n, unsigned flags)
{
    Region r;
    r.fn = fn;
    r.data = data;
    uint64_t const count = H::g_regions.fetch_add(1, std::memory_order_relaxed);
    uint32_t const seed = H::g_delay_seed.load(std::memory_order_relaxed);
    r.seed = seed ? seed * 7919ull + count : 0;
    __tsan_release(&r.in);
    __real_GOMP_parallel(body, &r, n, flags);
    __tsan_acquire(&r.out);
    unsigned const e = r.entered.load(std::memory_order_relaxed);
    H::g_threads.fetch_add(e, std::memory_order_relaxed);
    if (e > 1)
    {
        uint64_t h = (r.order.load(std::memory_order_relaxed) ^ e) * 0xff51afd7ed558ccdull;
        h ^= h >> 29;
        H::g_orders.fetch_xor(h * 0x94D049BB133111EBull + count, std::memory_order_relaxed);
    }
}

// The other entry points a differently written loop would use.
#define LOOP(NAME) \
    extern "C" void __real_GOMP_parallel_loop_##NAME(void (*)(void *), void *, unsigned, long, long, long, long, unsigned); \
    extern "C" void __wrap_GOMP_parallel_loop_##NAME(void (*fn)(void *), void * data, unsigned n, long a, long b, long c, long d, unsigned flags) \
    { \
        Region r; \
        r.fn = fn; \
        r.data = data; \
        uint32_t const seed = H::g_delay_seed.load(std::memory_order_relaxed); \
        uint64_t const count = H::g_regions.fetch_add(1, std::memory_order_relaxed); \
        r.seed = seed ? seed * 7919ull + count : 0; \
        __tsan_release(&r.in); \
        __real_GOMP_parallel_loop_##NAME(body, &r, n, a, b, c, d, flags); \
        __tsan_acquire(&r.out); \
        H::g_threads.fetch_add(r.entered.load(std::memory_order_relaxed), std::memory_order_relaxed); \
    }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)

static char g_barrier, g_critical, g_atomic;
#define AROUND_BARRIER(F) \
    extern "C" void __real_##F(); \
    extern "C" void __wrap_##F() { __tsan_release(&g_barrier); __real_##F(); __tsan_acquire(&g_barrier); }
AROUND_BARRIER(GOMP_barrier)
AROUND_BARRIER(GOMP_loop_end)
#define LOCKED(BEGIN, END, V) \
    extern "C" void __real_##BEGIN(); \
    extern "C" void __real_##END(); \
    extern "C" void __wrap_##BEGIN() { __real_##BEGIN(); __tsan_acquire(&V); } \
    extern "C" void __wrap_##END() { __tsan_release(&V); __real_##END(); }
LOCKED(GOMP_critical_start, GOMP_critical_end, g_critical)
LOCKED(GOMP_atomic_start, GOMP_atomic_end, g_atomic)
