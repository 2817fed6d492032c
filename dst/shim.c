/* Simulation seams below Python: the wall clock and numpy's data allocator.
 *
 * Loaded with LD_PRELOAD so that every reading of CLOCK_REALTIME made by the
 * interpreter comes from the simulator once it has set a time, and reached
 * through ctypes for control.  The allocator is installed in numpy with
 * PyDataMem_SetHandler (NEP 49): it fills fresh memory with a seeded pattern
 * and can make the n-th allocation fail.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>

/* ---------------------------------------------------------------- clock */
static volatile int clock_on = 0;
static volatile int64_t clock_now = 0;   /* nanoseconds since the epoch */
static volatile int64_t clock_tick = 0;  /* advance per reading */
static volatile uint64_t clock_reads = 0;

typedef int (*cg_t)(clockid_t, struct timespec *);
static cg_t real_cg(void)
{
    static cg_t f = NULL;
    if (!f) f = (cg_t)dlsym(RTLD_NEXT, "clock_gettime");
    return f;
}

static int64_t sim_now(void)
{
    clock_reads++;
    clock_now += clock_tick;
    return clock_now;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t t = sim_now();
        int64_t s = t / 1000000000LL, n = t % 1000000000LL;
        if (n < 0) { n += 1000000000LL; s -= 1; }
        ts->tv_sec = s;
        ts->tv_nsec = n;
        return 0;
    }
    return real_cg()(id, ts);
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *out)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}

void dst_clock(int on, int64_t now, int64_t tick)
{
    clock_now = now;
    clock_tick = tick;
    clock_reads = 0;
    clock_on = on;
}
uint64_t dst_clock_reads(void) { return clock_reads; }

/* ------------------------------------------------------------ allocator */
typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *, size_t);
} alloc_t;
typedef struct {
    char name[127];
    uint8_t version;
    alloc_t allocator;
} handler_t;

static uint64_t mem_state = 1;
static int mem_mode = 0;        /* 0 zero, 1 random bytes, 2 NaN, 3 0xff.. 4 1.0 */
static int64_t mem_count = 0, mem_fail_at = -1, mem_failed = 0;
static size_t mem_largest = 0, mem_cap = 0;

static uint64_t next64(void)
{
    uint64_t z = (mem_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static void fill(void *p, size_t n)
{
    unsigned char *b = p;
    size_t i;
    union { double d; uint64_t u; } v;
    switch (mem_mode) {
    case 1:
        for (i = 0; i + 8 <= n; i += 8) {
            uint64_t r = next64();
            memcpy(b + i, &r, 8);
        }
        for (; i < n; i++) b[i] = (unsigned char)next64();
        return;
    case 2: v.u = 0x7ff8000000000000ULL; break;
    case 3: memset(p, 0xff, n); return;
    case 4: v.d = 1.0e3; break;
    default: memset(p, 0, n); return;
    }
    for (i = 0; i + 8 <= n; i += 8) memcpy(b + i, &v.u, 8);
    for (; i < n; i++) b[i] = 1;
}

static int failing(size_t n)
{
    mem_count++;
    if (n > mem_largest) mem_largest = n;
    if (mem_cap && n > mem_cap) {
        errno = ENOMEM;
        return 1;
    }
    if (mem_fail_at >= 0 && mem_count - 1 == mem_fail_at) {
        mem_failed++;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

static void *h_malloc(void *ctx, size_t n)
{
    void *p;
    (void)ctx;
    if (failing(n)) return NULL;
    p = malloc(n ? n : 1);
    if (p) fill(p, n);
    return p;
}
static void *h_calloc(void *ctx, size_t a, size_t b)
{
    (void)ctx;
    if (failing(b && a > SIZE_MAX / b ? SIZE_MAX : a * b)) return NULL;
    return calloc(a ? a : 1, b ? b : 1);
}
static void *h_realloc(void *ctx, void *p, size_t n)
{
    (void)ctx;
    if (failing(n)) return NULL;
    return realloc(p, n ? n : 1);
}
static void h_free(void *ctx, void *p, size_t n)
{
    (void)ctx;
    (void)n;
    free(p);
}

static handler_t handler = {"dst_sim_alloc", 1,
                            {NULL, h_malloc, h_calloc, h_realloc, h_free}};
void *dst_handler(void) { return &handler; }
void dst_mem(int mode, uint64_t seed, int64_t fail_at)
{
    mem_mode = mode;
    mem_state = seed;
    mem_count = 0;
    mem_failed = 0;
    mem_fail_at = fail_at;
    mem_largest = 0;
}
void dst_mem_cap(uint64_t cap) { mem_cap = cap; }
uint64_t dst_mem_largest(void) { return mem_largest; }
int64_t dst_mem_count(void) { return mem_count; }
int64_t dst_mem_failed(void) { return mem_failed; }
