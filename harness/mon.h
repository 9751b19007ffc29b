/* Monitoring runtime shared by all harnesses.
 *
 * Every harness is one C file which includes this header once, defines some
 * "modes" (workload + oracle) and lists them in mon_modes[]. The runtime
 * provides:
 *
 *  - a seeded random source (or, with -DMON_FUZZ, a libFuzzer byte stream);
 *  - an event log (ring of the last operations, formatted only when dumped);
 *  - CHECK(): the online oracle; a failing one dumps the log and ends the run;
 *  - an instrumented heap (via ld --wrap): live-block accounting, junk filling,
 *    always-moving realloc, heap-call counting and allocation-fault injection;
 *  - a CPU-time watchdog per episode (for code which stops terminating);
 *  - event counters and distinct-state hashes reported to the driver.
 *
 * Exit codes: 0 fine, 77 oracle violation, 78 hang, 79 fatal signal,
 * 99 sanitizer report, 3 error of the harness itself.
 */
#ifndef MON_H
#define MON_H

#ifndef _GNU_SOURCE
    #define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdlib.h>
#include <malloc.h>
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <stddef.h>
#include <limits.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>

#if defined(__has_feature)
    #if __has_feature(memory_sanitizer)
        #define MON_MSAN 1
        #include <sanitizer/msan_interface.h>
    #endif
    #if __has_feature(address_sanitizer)
        #define MON_ASAN 1
        #include <sanitizer/asan_interface.h>
    #endif
    #if __has_feature(thread_sanitizer)
        #define MON_TSAN 1
    #endif
#endif
#if defined(MON_MSAN) || defined(MON_ASAN) || defined(MON_TSAN)
    void __sanitizer_set_death_callback(void (*)(void));
    #define MON_SAN 1
#endif

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

#ifdef __SIZEOF_INT128__
    typedef __int128 i128;
    typedef unsigned __int128 u128;
#else
    typedef _BitInt(128) i128;
    typedef unsigned _BitInt(128) u128;
#endif

#define MON_UNUSED __attribute__((unused))

/* Bits of size_t; SZ_BIT(k) counts from the top one of 64: SZ_BIT(63) is it. */
#define MON_SZBITS      ((int) (8 * sizeof(size_t)))
#define SZ_BIT(k)       ((size_t) 1 << ((k) - (64 - MON_SZBITS)))

/* ------------------------------------------------------------------------ */
/* Random source. */

static u64 mon_rng_state;
#ifdef MON_FUZZ
static const u8* mon_fz_data;
static size_t mon_fz_size;
#endif

static u64
mon_mix(u64 z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

static u64
mon_prng(void)
{
    mon_rng_state += 0x9e3779b97f4a7c15ULL;
    return mon_mix(mon_rng_state);
}

static MON_UNUSED u64
mon_raw(unsigned bytes)
{
#ifdef MON_FUZZ
    u64 v = 0;
    while(bytes-- > 0) {
        v <<= 8;
        if(mon_fz_size > 0) {
            v |= *mon_fz_data++;
            mon_fz_size--;
        }
    }
    return v;
#else
    (void) bytes;
    return mon_prng();
#endif
}

static MON_UNUSED u64 rnd(void) { return mon_raw(8); }

/* Uniform in [0, n). */
static MON_UNUSED u64
rn(u64 n)
{
    if(n <= 1)
        return 0;
    if(n <= 0x100)
        return mon_raw(1) % n;
    if(n <= 0x10000)
        return mon_raw(2) % n;
    if(n <= 0x100000000ULL)
        return mon_raw(4) % n;
    return mon_raw(8) % n;
}

static MON_UNUSED u64 rr(u64 lo, u64 hi) { return lo + rn(hi - lo + 1); }
static MON_UNUSED int chance(unsigned a, unsigned b) { return rn(b) < a; }

/* Is there more input? (Always true unless fuzzing.) */
static MON_UNUSED int
mon_more(void)
{
#ifdef MON_FUZZ
    return mon_fz_size > 0;
#else
    return 1;
#endif
}

static MON_UNUSED void
rnd_fill(void* p, size_t n)
{
    u8* b = (u8*) p;
    u64 x = rnd();
    size_t i;
    for(i = 0; i < n; i++) {
        if(i % 8 == 0) {
            x = mon_mix(x + i + 1);
        }
        b[i] = (u8) (x >> (8 * (i % 8)));
    }
}

/* A size in [0, max], small ones preferred, and boundaries (2^k + small delta)
 * likely. */
static MON_UNUSED size_t
rnd_size(size_t max)
{
    size_t s;
    switch(rn(8)) {
        case 0: s = rn(4); break;
        case 1: case 2: case 3: s = rn(20); break;
        case 4: s = rn(70); break;
        case 5: s = ((size_t) 1 << rn(14)) + rn(7) - 3; break;
        case 6: s = rn(600); break;
        default: s = rn(max + 1); break;
    }
    if(s > max)
        s = rn(max + 1);
    return s;
}

/* ------------------------------------------------------------------------ */
/* Event log, counters, oracle. */

#define MON_LOG_SIZE    256
#define MON_LOG_DUMP    80

struct mon_log_entry {
    const char* fmt;
    u64 arg[6];
};

static struct mon_log_entry mon_log[MON_LOG_SIZE];
static u64 mon_log_n;

static const char* mon_cur_mode = "?";
static u64 mon_cur_seed;
static u64 mon_cur_ep;
static int mon_thorough;

static MON_UNUSED void
mon_op(const char* fmt, u64 a, u64 b, u64 c, u64 d, u64 e, u64 f)
{
    struct mon_log_entry* le = &mon_log[mon_log_n++ % MON_LOG_SIZE];
    le->fmt = fmt;
    le->arg[0] = a; le->arg[1] = b; le->arg[2] = c;
    le->arg[3] = d; le->arg[4] = e; le->arg[5] = f;
}

#define MON_OP_(fmt, a, b, c, d, e, f, ...)                                   \
        mon_op(fmt, (u64)(a), (u64)(b), (u64)(c), (u64)(d), (u64)(e), (u64)(f))
/* Log an operation: the format may use only %llu, %lld and %llx. */
#define OP(...)         MON_OP_(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)

static void
mon_log_print(FILE* f, unsigned max)
{
    u64 i = (mon_log_n > max) ? mon_log_n - max : 0;
    if(mon_log_n > MON_LOG_SIZE && i < mon_log_n - MON_LOG_SIZE)
        i = mon_log_n - MON_LOG_SIZE;
    for(; i < mon_log_n; i++) {
        struct mon_log_entry* le = &mon_log[i % MON_LOG_SIZE];
        fprintf(f, "  #%llu ", (unsigned long long) i);
        fprintf(f, le->fmt, le->arg[0], le->arg[1], le->arg[2],
                            le->arg[3], le->arg[4], le->arg[5]);
        fputc('\n', f);
    }
}

static int mon_dumped;

static void
mon_dump(void)
{
    if(mon_dumped)
        return;
    mon_dumped = 1;
    fprintf(stderr, "MONITOR-CONTEXT mode=%s seed=%llu episode=%llu; last operations:\n",
            mon_cur_mode, (unsigned long long) mon_cur_seed, (unsigned long long) mon_cur_ep);
    mon_log_print(stderr, MON_LOG_DUMP);
    fflush(stderr);
}

static void mon_exit_violation(int code) __attribute__((noreturn));
static void
mon_exit_violation(int code)
{
    mon_dump();
#ifdef MON_FUZZ
    (void) code;
    abort();
#else
    _exit(code);
#endif
}

static void mon_fail(const char* file, int line, const char* cond, const char* fmt, ...)
        __attribute__((noreturn, format(printf, 4, 5)));
static void
mon_fail(const char* file, int line, const char* cond, const char* fmt, ...)
{
    va_list ap;
    const char* slash = strrchr(file, '/');
    fprintf(stderr, "MONITOR-VIOLATION %s:%d: [%s] ", slash ? slash + 1 : file, line, cond);
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fputc('\n', stderr);
    mon_exit_violation(77);
}

#define CHECK(cond, ...)                                                      \
    do {                                                                      \
        mon_n_checks++;                                                       \
        if(!(cond))                                                           \
            mon_fail(__FILE__, __LINE__, #cond, __VA_ARGS__);                 \
    } while(0)

static u64 mon_n_checks;
static u64 mon_n_evals;

static void mon_die(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
static void
mon_die(const char* fmt, ...)
{
    va_list ap;
    fprintf(stderr, "HARNESS-ERROR: ");
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fputc('\n', stderr);
    mon_dump();
    _exit(3);
}

/* Event counters. */
#define MON_MAX_EV      160
static struct { const char* name; u64 n; int is_max; } mon_ev[MON_MAX_EV];
static int mon_n_ev;

static MON_UNUSED int
mon_ev_index(const char* name)
{
    int i;
    for(i = 0; i < mon_n_ev; i++) {
        if(mon_ev[i].name == name || strcmp(mon_ev[i].name, name) == 0)
            return i;
    }
    if(mon_n_ev >= MON_MAX_EV)
        mon_die("too many counters");
    mon_ev[mon_n_ev].name = name;
    return mon_n_ev++;
}

#define EV(name)        EVN(name, 1)
#define EVN(name, k)                                                          \
    do {                                                                      \
        static int mon_idx__ = -1;                                            \
        if(mon_idx__ < 0) mon_idx__ = mon_ev_index(name);                     \
        mon_ev[mon_idx__].n += (k);                                           \
    } while(0)
#define EVMAX(name, val)                                                      \
    do {                                                                      \
        static int mon_idx__ = -1;                                            \
        u64 mon_v__ = (u64) (val);                                            \
        if(mon_idx__ < 0) { mon_idx__ = mon_ev_index(name);                   \
                            mon_ev[mon_idx__].is_max = 1; }                   \
        if(mon_ev[mon_idx__].n < mon_v__) mon_ev[mon_idx__].n = mon_v__;      \
    } while(0)

/* Distinct states (an open-addressing set of 64-bit hashes, capped). */
#define MON_STATE_CAP   (1u << 16)
static u64* mon_states;
static u32 mon_n_states;
static u64 mon_states_dropped;

static MON_UNUSED void
mon_state(u64 h)
{
    u32 i;
    h = mon_mix(h);
    if(h == 0)
        h = 1;
    if(mon_states == NULL) {
        mon_states = mmap(NULL, MON_STATE_CAP * 2 * sizeof(u64), PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if(mon_states == MAP_FAILED)
            mon_die("mmap");
    }
    for(i = (u32) h & (MON_STATE_CAP * 2 - 1); mon_states[i] != 0; i = (i + 1) & (MON_STATE_CAP * 2 - 1)) {
        if(mon_states[i] == h)
            return;
    }
    if(mon_n_states >= MON_STATE_CAP) {
        mon_states_dropped++;
        return;
    }
    mon_states[i] = h;
    mon_n_states++;
}

static MON_UNUSED u64 h2(u64 a, u64 b) { return mon_mix(a * 0x9ddfea08eb382d69ULL ^ mon_mix(b)); }
static MON_UNUSED u64 h3(u64 a, u64 b, u64 c) { return h2(h2(a, b), c); }
static MON_UNUSED u64 h4(u64 a, u64 b, u64 c, u64 d) { return h2(h3(a, b, c), d); }

static MON_UNUSED u64
hbytes(const void* p, size_t n)
{
    const u8* b = (const u8*) p;
    u64 h = n + 0x1234567;
    size_t i;
    for(i = 0; i < n; i++)
        h = (h ^ b[i]) * 0x100000001b3ULL;
    return mon_mix(h);
}

/* One oracle evaluation of a case; `state` identifies the case. A trivial case
 * is counted but does not contribute to the distinct ones. */
static MON_UNUSED void EVAL(u64 state) { mon_n_evals++; mon_state(state); }
static MON_UNUSED void EVAL_TRIVIAL(void) { mon_n_evals++; }

/* ------------------------------------------------------------------------ */
/* Instrumented heap. */

#ifndef MON_NOWRAP

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);

#define xmalloc_raw     __real_malloc
#define xfree           __real_free

struct mon_blk { void* p; size_t size; };

static struct {
    struct mon_blk* tab;
    size_t cap;             /* power of two */
    size_t used;            /* including tombstones */
    size_t live;            /* live blocks */
    size_t live_bytes;
    size_t small_bytes;     /* in blocks up to MON_SMALL */
    size_t peak_bytes;
    u64 n_alloc;            /* successful allocations, reallocations included */
    u64 n_malloc;           /* successful fresh blocks (malloc, calloc, realloc(NULL)) */
    u64 n_free;
    u64 n_requests;         /* all requests, failed ones included */
    u64 n_refused;          /* refused as too big */
    size_t max_request;
    /* fault injection */
    u64 fault_at;           /* 0 = off; fail the k-th request from arming */
    u64 fault_seen;
    u64 fault_fired;
    int fault_sticky;
} mon_heap;

#ifdef MON_THREADS
    /* Harnesses calling the code from several threads. */
    #include <pthread.h>
    static pthread_mutex_t mon_heap_mutex = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
    #define MON_LOCK()      pthread_mutex_lock(&mon_heap_mutex)
    #define MON_UNLOCK()    pthread_mutex_unlock(&mon_heap_mutex)
#elif !defined MON_LOCK
    #define MON_LOCK()      ((void) 0)
    #define MON_UNLOCK()    ((void) 0)
#endif
#ifndef MON_CHARGE
    #define MON_CHARGE(n)   ((void) 0)
#endif

#define MON_TOMB        ((void*) 1)
#if SIZE_MAX > 0xffffffffu
    #define MON_HEAP_LIMIT  ((size_t) 12 << 30)
#else
    #define MON_HEAP_LIMIT  ((size_t) 256 << 20)
#endif
static size_t mon_heap_limit = MON_HEAP_LIMIT;
#define MON_SMALL       ((size_t) 64 << 20)
#define MON_SMALL_LIMIT ((size_t) (SIZE_MAX > 0xffffffffu ? 2048 : 768) << 20)      /* no workload needs that much in small blocks */

static size_t mon_hp(void* p) { return (size_t) mon_mix((u64) (uintptr_t) p); }

static void
mon_blk_rehash(size_t cap)
{
    struct mon_blk* tab;
    size_t i;
    tab = __real_calloc(cap, sizeof(struct mon_blk));
    if(tab == NULL)
        mon_die("out of memory (heap monitor)");
    for(i = 0; i < mon_heap.cap; i++) {
        struct mon_blk* b = &mon_heap.tab[i];
        if(b->p != NULL && b->p != MON_TOMB) {
            size_t j = mon_hp(b->p) & (cap - 1);
            while(tab[j].p != NULL)
                j = (j + 1) & (cap - 1);
            tab[j] = *b;
        }
    }
    __real_free(mon_heap.tab);
    mon_heap.tab = tab;
    mon_heap.cap = cap;
    mon_heap.used = mon_heap.live;
}

static void
mon_blk_add(void* p, size_t size)
{
    size_t j;
    if(mon_heap.cap == 0)
        mon_blk_rehash(4096);
    else if(mon_heap.used * 2 >= mon_heap.cap)
        mon_blk_rehash(mon_heap.live * 4 >= mon_heap.cap ? mon_heap.cap * 2 : mon_heap.cap);
    j = mon_hp(p) & (mon_heap.cap - 1);
    while(mon_heap.tab[j].p != NULL && mon_heap.tab[j].p != MON_TOMB)
        j = (j + 1) & (mon_heap.cap - 1);
    if(mon_heap.tab[j].p == NULL)
        mon_heap.used++;
    mon_heap.tab[j].p = p;
    mon_heap.tab[j].size = size;
    mon_heap.live++;
    mon_heap.live_bytes += size;
    if(size <= MON_SMALL)
        mon_heap.small_bytes += size;
    if(mon_heap.peak_bytes < mon_heap.live_bytes)
        mon_heap.peak_bytes = mon_heap.live_bytes;
}

static struct mon_blk*
mon_blk_find(const void* p)
{
    size_t j;
    if(mon_heap.cap == 0 || p == NULL)
        return NULL;
    j = mon_hp((void*) p) & (mon_heap.cap - 1);
    while(mon_heap.tab[j].p != NULL) {
        if(mon_heap.tab[j].p == p)
            return &mon_heap.tab[j];
        j = (j + 1) & (mon_heap.cap - 1);
    }
    return NULL;
}

static void
mon_blk_del(struct mon_blk* b)
{
    mon_heap.live--;
    mon_heap.live_bytes -= b->size;
    if(b->size <= MON_SMALL)
        mon_heap.small_bytes -= b->size;
    b->p = MON_TOMB;
}

/* Is p a live block of the instrumented heap? If so, its size. */
static MON_UNUSED int mon_is_live(const void* p) { return mon_blk_find(p) != NULL; }
static MON_UNUSED size_t
mon_blk_size(const void* p)
{
    struct mon_blk* b = mon_blk_find(p);
    return (b != NULL) ? b->size : 0;
}

static int
mon_should_fail(size_t n)
{
    mon_heap.n_requests++;
    if(n > mon_heap.max_request)
        mon_heap.max_request = n;
    if(n <= MON_SMALL && mon_heap.small_bytes > MON_SMALL_LIMIT)
        mon_fail(__FILE__, __LINE__, "memory", "runaway allocation: %zu blocks, %zu bytes are allocated",
                 mon_heap.live, mon_heap.live_bytes);
    if(n > mon_heap_limit) {
        mon_heap.n_refused++;
        return 1;
    }
    if(mon_heap.fault_at != 0) {
        mon_heap.fault_seen++;
        if(mon_heap.fault_seen == mon_heap.fault_at ||
           (mon_heap.fault_sticky && mon_heap.fault_seen > mon_heap.fault_at)) {
            mon_heap.fault_fired++;
            return 1;
        }
    }
    return 0;
}

/* Make the k-th (1-based) request from now on fail (all following too, if
 * sticky). */
static MON_UNUSED void
mon_fault_arm(u64 k, int sticky)
{
    mon_heap.fault_at = k;
    mon_heap.fault_seen = 0;
    mon_heap.fault_fired = 0;
    mon_heap.fault_sticky = sticky;
}

/* Returns how many faults were injected since arming. */
static MON_UNUSED u64
mon_fault_disarm(void)
{
    mon_heap.fault_at = 0;
    return mon_heap.fault_fired;
}

static void
mon_junk(void* p, size_t n, u8 c)
{
#ifndef MON_MSAN
    if(n <= (1u << 20)) {
        memset(p, c, n);
    } else {
        memset(p, c, 4096);
        memset((u8*) p + n - 4096, c, 4096);
    }
#else
    (void) p; (void) n; (void) c;
#endif
}

/* What fresh memory is full of. */
static u8 mon_fresh_byte = 0xa5;

static void*
mon_fresh(size_t n)
{
    void* p = __real_malloc(n);
    if(p == NULL) {
        if(n < ((size_t) 1 << 30))
            mon_die("real malloc(%zu) failed", n);
        return NULL;
    }
    mon_junk(p, n, mon_fresh_byte);
    mon_blk_add(p, n);
    mon_heap.n_alloc++;
    mon_heap.n_malloc++;
    return p;
}

void* __wrap_malloc(size_t n);
void* __wrap_calloc(size_t a, size_t b);
void* __wrap_realloc(void* p, size_t n);
void* __wrap_reallocarray(void* p, size_t a, size_t b);
void __wrap_free(void* p);
char* __wrap_strdup(const char* s);
char* __wrap_strndup(const char* s, size_t n);

static void*
mon_do_malloc(size_t n)
{
    if(mon_should_fail(n)) {
        errno = ENOMEM;
        return NULL;
    }
    return mon_fresh(n);
}

static void*
mon_do_calloc(size_t a, size_t b)
{
    void* p;
    size_t n;
    if(__builtin_mul_overflow(a, b, &n))
        n = SIZE_MAX;
    if(mon_should_fail(n)) {
        errno = ENOMEM;
        return NULL;
    }
    if(n > (1u << 20)) {
        p = __real_calloc(a, b);
        if(p != NULL) {
            mon_blk_add(p, n);
            mon_heap.n_alloc++;
            mon_heap.n_malloc++;
        }
        return p;
    }
    p = mon_fresh(n);
    if(p != NULL)
        memset(p, 0, n);
    return p;
}

static void
mon_do_free(void* p)
{
    struct mon_blk* b = mon_blk_find(p);
    if(b != NULL) {
        size_t n = b->size;
        mon_blk_del(b);
        mon_heap.n_free++;
#ifndef MON_ASAN
        mon_junk(p, n, 0xdd);
#endif
        (void) n;
    }
    __real_free(p);
}

static void*
mon_do_realloc(void* p, size_t n)
{
    struct mon_blk* b;
    void* q;

    if(p == NULL)
        return mon_do_malloc(n);
    if(n == 0) {
        /* As glibc does. */
        mon_do_free(p);
        return NULL;
    }
    if(mon_should_fail(n)) {
        errno = ENOMEM;
        return NULL;
    }
    b = mon_blk_find(p);
    if(b == NULL) {
        /* Not ours (or already released: let the real heap judge). */
        q = __real_realloc(p, n);
        if(q != NULL) {
            mon_blk_add(q, n);
            mon_heap.n_alloc++;
        }
        return q;
    }
    if(b->size > (16u << 20) || n > (16u << 20)) {
        size_t old = b->size;
        mon_blk_del(b);
        q = __real_realloc(p, n);
        if(q == NULL) {
            mon_blk_add(p, old);
            return NULL;
        }
        mon_blk_add(q, n);
        mon_heap.n_alloc++;
        return q;
    }
    /* Always move. */
    q = __real_malloc(n);
    if(q == NULL)
        mon_die("real malloc(%zu) failed", n);
    if(n > b->size)
        mon_junk(q, n, mon_fresh_byte);
    memcpy(q, p, (n < b->size) ? n : b->size);
#ifndef MON_ASAN
    mon_junk(p, b->size, 0xdd);
#endif
    mon_blk_del(b);
    __real_free(p);
    mon_blk_add(q, n);
    mon_heap.n_alloc++;
    return q;
}

void*
__wrap_malloc(size_t n)
{
    void* r;
    MON_LOCK();
    r = mon_do_malloc(n);
    MON_UNLOCK();
    return r;
}

void*
__wrap_calloc(size_t a, size_t b)
{
    void* r;
    MON_LOCK();
    r = mon_do_calloc(a, b);
    MON_UNLOCK();
    MON_CHARGE(a * b);
    return r;
}

void*
__wrap_realloc(void* p, size_t n)
{
    void* r;
    MON_LOCK();
    r = mon_do_realloc(p, n);
    MON_UNLOCK();
    MON_CHARGE(n);
    return r;
}

void
__wrap_free(void* p)
{
    MON_LOCK();
    mon_do_free(p);
    MON_UNLOCK();
}

void*
__wrap_reallocarray(void* p, size_t a, size_t b)
{
    size_t n;
    if(__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return __wrap_realloc(p, n);
}

char*
__wrap_strndup(const char* s, size_t n)
{
    size_t len = strnlen(s, n);
    char* d = __wrap_malloc(len + 1);
    if(d != NULL) {
        memcpy(d, s, len);
        d[len] = '\0';
    }
    return d;
}

char*
__wrap_strdup(const char* s)
{
    return __wrap_strndup(s, strlen(s));
}

/* For code of the library expanded right into the harness (inline functions,
 * macros): the C library declares malloc() as a function which does not touch
 * our static variables, and the compiler would believe it. */
#define malloc(n)       __wrap_malloc(n)
#define calloc(a, b)    __wrap_calloc(a, b)
#define realloc(p, n)   __wrap_realloc(p, n)
#define free(p)         __wrap_free(p)

#else  /* MON_NOWRAP */

#define xmalloc_raw     malloc
#define xfree           free

#endif

/* Memory of the harness itself (not instrumented by the heap monitor, but
 * guarded by ASan red zones as any other). */
static MON_UNUSED void*
xmalloc(size_t n)
{
    void* p = xmalloc_raw(n);
    if(p == NULL)
        mon_die("out of memory (%zu)", n);
    return p;
}

/* An exact-size heap copy of a block, so that ASan sees any access beyond. */
static MON_UNUSED void*
xdup(const void* data, size_t n)
{
    void* p = xmalloc(n ? n : 1);
    if(n)
        memcpy(p, data, n);
#ifdef MON_ASAN
    if(n == 0)
        ASAN_POISON_MEMORY_REGION(p, 1);
#endif
    return p;
}
static MON_UNUSED void
xdup_free(void* p, size_t n)
{
#ifdef MON_ASAN
    if(n == 0)
        ASAN_UNPOISON_MEMORY_REGION(p, 1);
#endif
    (void) n;
    xfree(p);
}

/* ------------------------------------------------------------------------ */
/* Modes and main. */

struct mon_mode {
    const char* name;
    void (*fn)(u64 ep);
};
extern const struct mon_mode mon_modes[];

static unsigned mon_cpu_limit = 60;

static MON_UNUSED void
mon_on_signal(int sig)
{
    if(sig == SIGVTALRM) {
        fprintf(stderr, "MONITOR-HANG: episode did not finish in %u s of CPU time\n", mon_cpu_limit);
        mon_exit_violation(78);
    }
    fprintf(stderr, "MONITOR-SIGNAL: fatal signal %d\n", sig);
    mon_exit_violation(79);
}

static MON_UNUSED void
mon_watchdog(unsigned secs)
{
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}

static void
mon_run_episode(const struct mon_mode* m, u64 seed, u64 ep)
{
#ifndef MON_NOWRAP
    size_t live0 = mon_heap.live;
    size_t bytes0 = mon_heap.live_bytes;
#endif
    mon_cur_mode = m->name;
    mon_cur_seed = seed;
    mon_cur_ep = ep;
    mon_log_n = 0;
    mon_rng_state = h3(seed, hbytes(m->name, strlen(m->name)), ep);
    m->fn(ep);
#ifndef MON_NOWRAP
    CHECK(mon_heap.fault_at == 0, "harness: fault left armed");
    CHECK(mon_heap.live == live0 && mon_heap.live_bytes == bytes0,
          "leak: %zu block(s) (%zd bytes) still allocated at the end of the episode",
          mon_heap.live - live0, (ssize_t) (mon_heap.live_bytes - bytes0));
#endif
}

#ifdef MON_FUZZ

int LLVMFuzzerTestOneInput(const u8* data, size_t size);
int
LLVMFuzzerTestOneInput(const u8* data, size_t size)
{
    static const struct mon_mode* m;
    if(m == NULL) {
        const char* name = getenv("MON_MODE");
        for(m = mon_modes; m->name != NULL; m++) {
            if(name != NULL && strcmp(m->name, name) == 0)
                break;
        }
        if(m->name == NULL)
            mon_die("no such mode");
        __sanitizer_set_death_callback(mon_dump);
    }
    mon_fz_data = data;
    mon_fz_size = size;
    mon_dumped = 0;
    mon_run_episode(m, 0, 0);
    return 0;
}

#else

static void
mon_report(const char* path, u64 n_episodes, int complete)
{
    FILE* f;
    int i;
    char tmp[4096];

    f = fopen(path, "w");
    if(f == NULL)
        mon_die("cannot write %s", path);
    fprintf(f, "{\"episodes\": %llu, \"complete\": %d, \"checks\": %llu, \"evals\": %llu, \"states\": %u, \"states_dropped\": %llu, \"events\": {",
            (unsigned long long) n_episodes, complete, (unsigned long long) mon_n_checks,
            (unsigned long long) mon_n_evals, mon_n_states, (unsigned long long) mon_states_dropped);
    for(i = 0; i < mon_n_ev; i++)
        fprintf(f, "%s\"%s%s\": %llu", i ? ", " : "", mon_ev[i].is_max ? "max:" : "",
                mon_ev[i].name, (unsigned long long) mon_ev[i].n);
    fprintf(f, "}}\n");
    fclose(f);

    if(mon_states != NULL) {
        snprintf(tmp, sizeof(tmp), "%s.states", path);
        f = fopen(tmp, "wb");
        if(f != NULL) {
            u32 k;
            for(k = 0; k < MON_STATE_CAP * 2; k++) {
                if(mon_states[k] != 0)
                    fwrite(&mon_states[k], sizeof(u64), 1, f);
            }
            fclose(f);
        }
    }
}

int
main(int argc, char** argv)
{
    const char* mode = NULL;
    const char* out = NULL;
    const char* sample = NULL;
    u64 seed = 1, first = 0, step = 1, count = 1, done = 0, i;
    double budget = 1e9;
    const struct mon_mode* m;
    struct timespec t0, t1;
    int a, complete = 1;

    for(a = 1; a + 1 < argc; a += 2) {
        if(strcmp(argv[a], "--mode") == 0) mode = argv[a+1];
        else if(strcmp(argv[a], "--seed") == 0) seed = strtoull(argv[a+1], NULL, 10);
        else if(strcmp(argv[a], "--first") == 0) first = strtoull(argv[a+1], NULL, 10);
        else if(strcmp(argv[a], "--step") == 0) step = strtoull(argv[a+1], NULL, 10);
        else if(strcmp(argv[a], "--count") == 0) count = strtoull(argv[a+1], NULL, 10);
        else if(strcmp(argv[a], "--budget") == 0) budget = strtod(argv[a+1], NULL);
        else if(strcmp(argv[a], "--cpu") == 0) mon_cpu_limit = (unsigned) strtoul(argv[a+1], NULL, 10);
        else if(strcmp(argv[a], "--thorough") == 0) mon_thorough = atoi(argv[a+1]);
        else if(strcmp(argv[a], "--out") == 0) out = argv[a+1];
        else if(strcmp(argv[a], "--sample") == 0) sample = argv[a+1];
        else mon_die("bad argument %s", argv[a]);
    }
    for(m = mon_modes; m->name != NULL; m++) {
        if(mode != NULL && strcmp(m->name, mode) == 0)
            break;
    }
    if(m->name == NULL)
        mon_die("no such mode: %s", mode ? mode : "(none)");

#ifdef MON_SAN
    __sanitizer_set_death_callback(mon_dump);
    signal(SIGVTALRM, mon_on_signal);
#else
    {
        static char altstack[65536];
        static const int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM };
        struct sigaction sa;
        stack_t ss;
        memset(&ss, 0, sizeof(ss));
        ss.ss_sp = altstack;
        ss.ss_size = sizeof(altstack);
        sigaltstack(&ss, NULL);
        memset(&sa, 0, sizeof(sa));
        sa.sa_handler = mon_on_signal;
        sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
        for(i = 0; i < sizeof(sigs) / sizeof(sigs[0]); i++)
            sigaction(sigs[i], &sa, NULL);
    }
#endif

    clock_gettime(CLOCK_MONOTONIC, &t0);
    for(i = first; i < count; i += step) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if((double) (t1.tv_sec - t0.tv_sec) + (double) (t1.tv_nsec - t0.tv_nsec) * 1e-9 > budget) {
            complete = 0;
            break;
        }
        mon_watchdog(mon_cpu_limit);
        mon_run_episode(m, seed, i);
        done++;
        if(sample != NULL && done <= 2) {
            FILE* f = fopen(sample, "a");
            if(f != NULL) {
                fprintf(f, "== mode=%s seed=%llu episode=%llu (last operations)\n", m->name,
                        (unsigned long long) seed, (unsigned long long) i);
                mon_log_print(f, 14);
                fclose(f);
            }
        }
    }
    mon_watchdog(0);
    if(out != NULL)
        mon_report(out, done, complete);
    return 0;
}

#endif

#endif  /* MON_H */
