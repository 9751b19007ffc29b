/* A minimal C library for the variant "ilp32": just enough of i386 Linux for
 * the harnesses to run as 32-bit programs on a system which has no 32-bit C
 * library. Single-threaded. The heap puts canaries around every block and
 * checks them when the block is released.
 */
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/mman.h>

#undef errno
#undef stderr
#undef stdout
#undef malloc

static long
sys(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    /* The sixth argument goes in ebp. */
    long args[7];
    args[0] = n; args[1] = a; args[2] = b; args[3] = c; args[4] = d; args[5] = e; args[6] = f;
    __asm__ volatile("pushl %%ebx\n\tpushl %%esi\n\tpushl %%edi\n\tpushl %%ebp\n\t"
                     "movl %%eax, %%ebp\n\t"
                     "movl 4(%%ebp), %%ebx\n\tmovl 8(%%ebp), %%ecx\n\tmovl 12(%%ebp), %%edx\n\t"
                     "movl 16(%%ebp), %%esi\n\tmovl 20(%%ebp), %%edi\n\tmovl 0(%%ebp), %%eax\n\t"
                     "movl 24(%%ebp), %%ebp\n\t"
                     "int $0x80\n\t"
                     "popl %%ebp\n\tpopl %%edi\n\tpopl %%esi\n\tpopl %%ebx"
                     : "=a"(r) : "a"(args) : "ecx", "edx", "memory", "cc");
    return r;
}

static int my_errno;
int* __errno_location(void) { return &my_errno; }

void
_exit(int code)
{
    for(;;)
        sys(252, code, 0, 0, 0, 0, 0);
}

static void
die(const char* msg)
{
    sys(4, 2, (long) msg, (long) strlen(msg), 0, 0, 0);
    sys(4, 2, (long) "\n", 1, 0, 0, 0);
    abort();
}

/* ---- strings ---- */

void* memcpy(void* d, const void* s, size_t n) { void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memset(void* d, int c, size_t n) { void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
void*
memmove(void* d, const void* s, size_t n)
{
    uint8_t* dd = (uint8_t*) d;
    const uint8_t* ss = (const uint8_t*) s;
    if((uintptr_t) d - (uintptr_t) s >= n)
        return memcpy(d, s, n);
    while(n-- > 0) {
        dd[n] = ss[n];
        __asm__ volatile("" : : : "memory");
    }
    return d;
}
int
memcmp(const void* a, const void* b, size_t n)
{
    const uint8_t* x = (const uint8_t*) a;
    const uint8_t* y = (const uint8_t*) b;
    for(; n > 0; n--, x++, y++) {
        if(*x != *y)
            return (int) *x - (int) *y;
    }
    return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void*
memchr(const void* s, int c, size_t n)
{
    const uint8_t* p = (const uint8_t*) s;
    for(; n > 0; n--, p++) {
        if(*p == (uint8_t) c)
            return (void*) p;
    }
    return NULL;
}
size_t strlen(const char* s) { size_t n = 0; while(s[n] != '\0') { n++; __asm__ volatile(""); } return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while(n < m && s[n] != '\0') n++; return n; }
int
strncmp(const char* a, const char* b, size_t n)
{
    for(; n > 0; n--, a++, b++) {
        if(*a != *b)
            return (int) (uint8_t) *a - (int) (uint8_t) *b;
        if(*a == '\0')
            break;
    }
    return 0;
}
int strcmp(const char* a, const char* b) { return strncmp(a, b, SIZE_MAX); }
char* (strchr)(const char* s, int c) { for(; ; s++) { if(*s == (char) c) return (char*) s; if(*s == '\0') return NULL; } }
char* (strrchr)(const char* s, int c) { const char* r = NULL; for(; ; s++) { if(*s == (char) c) r = s; if(*s == '\0') return (char*) r; } }
char* strcpy(char* d, const char* s) { memcpy(d, s, strlen(s) + 1); return d; }
char* stpcpy(char* d, const char* s) { strcpy(d, s); return d + strlen(d); }
char* strncpy(char* d, const char* s, size_t n) { size_t k = strnlen(s, n); memcpy(d, s, k); memset(d + k, 0, n - k); return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char*
(strstr)(const char* s, const char* t)
{
    size_t n = strlen(t);
    for(; ; s++) {
        if(strncmp(s, t, n) == 0)
            return (char*) s;
        if(*s == '\0')
            return NULL;
    }
}

/* ---- numbers ---- */

/* (Depending on the standard chosen, the headers rename these.) */
#define BOTH(name)                                                            \
        __asm__(".globl " #name "\n.set " #name ", x_" #name "\n"             \
                ".globl __isoc23_" #name "\n.set __isoc23_" #name ", x_" #name);
BOTH(strtoull) BOTH(strtoul) BOTH(strtol)
unsigned long long x_strtoull(const char* s, char** end, int base);
unsigned long x_strtoul(const char* s, char** e, int b);
long x_strtol(const char* s, char** e, int b);

unsigned long long
x_strtoull(const char* s, char** end, int base)
{
    unsigned long long v = 0;
    if(base == 0)
        base = 10;
    while(*s >= '0' && *s <= '9')
        v = v * (unsigned) base + (unsigned) (*s++ - '0');
    if(end != NULL)
        *end = (char*) s;
    return v;
}
unsigned long x_strtoul(const char* s, char** e, int b) { return (unsigned long) x_strtoull(s, e, b); }
long x_strtol(const char* s, char** e, int b) { return (*s == '-') ? -(long) x_strtoull(s + 1, e, b) : (long) x_strtoull(s, e, b); }
int (atoi)(const char* s) { return (int) x_strtol(s, NULL, 10); }
double
strtod(const char* s, char** end)
{
    double v = 0, k = 1;
    while(*s >= '0' && *s <= '9')
        v = v * 10 + (*s++ - '0');
    if(*s == '.') {
        s++;
        while(*s >= '0' && *s <= '9') {
            k /= 10;
            v += k * (*s++ - '0');
        }
    }
    if(end != NULL)
        *end = (char*) s;
    return v;
}

void
qsort(void* base, size_t n, size_t size, int (*cmp)(const void*, const void*))
{
    /* Heap sort. */
    uint8_t* b = (uint8_t*) base;
    size_t i, j, k, m;
#define SWAP(x, y)                                                            \
        do { for(k = 0; k < size; k++) { uint8_t t_ = b[(x) * size + k];      \
             b[(x) * size + k] = b[(y) * size + k]; b[(y) * size + k] = t_; } } while(0)
    if(n < 2)
        return;
    for(i = n / 2; i-- > 0; ) {
        for(j = i; (m = 2 * j + 1) < n; j = m) {
            if(m + 1 < n && cmp(b + m * size, b + (m + 1) * size) < 0)
                m++;
            if(cmp(b + j * size, b + m * size) >= 0)
                break;
            SWAP(j, m);
        }
    }
    for(i = n - 1; i > 0; i--) {
        SWAP(0, i);
        for(j = 0; (m = 2 * j + 1) < i; j = m) {
            if(m + 1 < i && cmp(b + m * size, b + (m + 1) * size) < 0)
                m++;
            if(cmp(b + j * size, b + m * size) >= 0)
                break;
            SWAP(j, m);
        }
    }
}

/* ---- mathematics ---- */

double floor(double x) { double r = x; uint16_t cw, n; __asm__ volatile("fnstcw %0" : "=m"(cw)); n = (uint16_t) ((cw & ~0xc00) | 0x400); __asm__ volatile("fldcw %0" : : "m"(n)); __asm__ volatile("fldl %0; frndint; fstpl %0" : "+m"(r)); __asm__ volatile("fldcw %0" : : "m"(cw)); return r; }
long double floorl(long double x) { long double r = x; uint16_t cw, n; __asm__ volatile("fnstcw %0" : "=m"(cw)); n = (uint16_t) ((cw & ~0xc00) | 0x400); __asm__ volatile("fldcw %0" : : "m"(n)); __asm__ volatile("fldt %0; frndint; fstpt %0" : "+m"(r)); __asm__ volatile("fldcw %0" : : "m"(cw)); return r; }
double trunc(double x) { return (x < 0) ? -floor(-x) : floor(x); }
double fabs(double x) { return __builtin_fabs(x); }
long double truncl(long double x) { return (x < 0) ? -floorl(-x) : floorl(x); }
double round(double x) { double f = floor(fabs(x)), g = (fabs(x) - f >= 0.5) ? f + 1 : f; return __builtin_copysign(g, x); }
long double roundl(long double x) { long double a = (x < 0) ? -x : x, f = floorl(a), g = (a - f >= 0.5L) ? f + 1 : f; return __builtin_copysignl(g, x); }
double ceil(double x) { return -floor(-x); }
/* Rather rough ones: only for bounds. */
double
log2(double x)
{
    double r;
    __asm__ volatile("fld1; fldl %1; fyl2x; fstpl %0" : "=m"(r) : "m"(x));
    return r;
}
double log(double x) { return log2(x) * 0.6931471805599453; }
double sqrt(double x) { double r; __asm__ volatile("fldl %1; fsqrt; fstpl %0" : "=m"(r) : "m"(x)); return r; }
double nextafter(double x, double y);
double
nextafter(double x, double y)
{
    union { double d; int64_t i; } u;
    if(x != x || y != y)
        return x + y;
    if(x == y)
        return y;
    u.d = x;
    if(x == 0) {
        u.i = 1;
        return (y > 0) ? u.d : -u.d;
    }
    u.i += ((x < y) == (x > 0)) ? 1 : -1;
    return u.d;
}
float nextafterf(float x, float y);
float
nextafterf(float x, float y)
{
    union { float d; int32_t i; } u;
    if(x != x || y != y)
        return x + y;
    if(x == y)
        return y;
    u.d = x;
    if(x == 0) {
        u.i = 1;
        return (y > 0) ? u.d : -u.d;
    }
    u.i += ((x < y) == (x > 0)) ? 1 : -1;
    return u.d;
}
double
ldexp(double x, int e)
{
    for(; e > 0; e--) x *= 2;
    for(; e < 0; e++) x /= 2;
    return x;
}
long double
ldexpl(long double x, int e)
{
    for(; e > 0; e--) x *= 2;
    for(; e < 0; e++) x /= 2;
    return x;
}

/* ---- system ---- */

void*
mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
    long r = sys(192, (long) a, (long) n, prot, flags, fd, (long) (off >> 12));
    if(r < 0 && r > -4096) {
        my_errno = (int) -r;
        return MAP_FAILED;
    }
    return (void*) r;
}
static int ret(long r) { if(r < 0 && r > -4096) { my_errno = (int) -r; return -1; } return (int) r; }
int munmap(void* a, size_t n) { return ret(sys(91, (long) a, (long) n, 0, 0, 0, 0)); }
int mprotect(void* a, size_t n, int p) { return ret(sys(125, (long) a, (long) n, p, 0, 0, 0)); }
int madvise(void* a, size_t n, int p) { return ret(sys(219, (long) a, (long) n, p, 0, 0, 0)); }
int close(int fd) { return ret(sys(6, fd, 0, 0, 0, 0, 0)); }
pid_t getpid(void) { return ret(sys(20, 0, 0, 0, 0, 0, 0)); }
long sysconf(int name) { (void) name; return 4096; }
long
syscall(long n, ...)
{
    (void) n;
    my_errno = ENOSYS;
    return -1;
}
int ftruncate(int fd, off_t n) { (void) fd; (void) n; my_errno = ENOSYS; return -1; }

int clock_gettime(clockid_t id, struct timespec* ts) { return ret(sys(265, id, (long) ts, 0, 0, 0, 0)); }
int setitimer(__itimer_which_t w, const struct itimerval* a, struct itimerval* b) { return ret(sys(104, (long) w, (long) a, (long) b, 0, 0, 0)); }
int sigaltstack(const stack_t* a, stack_t* b) { return ret(sys(186, (long) a, (long) b, 0, 0, 0, 0)); }

struct ksigaction { void (*handler)(int); unsigned long flags; void (*restorer)(void); uint32_t mask[2]; };
int
sigaction(int sig, const struct sigaction* sa, struct sigaction* old)
{
    struct ksigaction k;
    (void) old;
    memset(&k, 0, sizeof(k));
    k.handler = sa->sa_handler;
    k.flags = (unsigned long) sa->sa_flags;
    return ret(sys(174, sig, (long) &k, 0, 8, 0, 0));
}
__sighandler_t
signal(int sig, __sighandler_t h)
{
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = h;
    sigaction(sig, &sa, NULL);
    return SIG_DFL;
}
void
abort(void)
{
    for(;;) {
        struct ksigaction k;
        sys(37, sys(20, 0, 0, 0, 0, 0, 0), SIGABRT, 0, 0, 0, 0);
        memset(&k, 0, sizeof(k));
        sys(174, SIGABRT, (long) &k, 0, 8, 0, 0);
        sys(37, sys(20, 0, 0, 0, 0, 0, 0), SIGABRT, 0, 0, 0, 0);
        _exit(134);
    }
}
char* getenv(const char* name) { (void) name; return NULL; }

/* No threads: harnesses using some must not call these. */
int pthread_mutex_lock(void* m);
int pthread_mutex_unlock(void* m);
int pthread_create(void* a, void* b, void* c, void* d);
int pthread_join(void* a, void* b);
int pthread_barrier_init(void* a, void* b, unsigned c);
int pthread_barrier_wait(void* a);
int pthread_barrier_destroy(void* a);
int pthread_mutex_lock(void* m) { (void) m; return 0; }
int pthread_mutex_unlock(void* m) { (void) m; return 0; }
int pthread_create(void* a, void* b, void* c, void* d) { (void) a; (void) b; (void) c; (void) d; return EAGAIN; }
int pthread_join(void* a, void* b) { (void) a; (void) b; return 0; }
int pthread_barrier_init(void* a, void* b, unsigned c) { (void) a; (void) b; (void) c; return 0; }
int pthread_barrier_wait(void* a) { (void) a; return 0; }
int pthread_barrier_destroy(void* a) { (void) a; return 0; }

/* ---- heap ---- */

struct head { size_t size; size_t cls; struct head* next; uint32_t canary; };   /* 16 bytes */
#define LIVE    0x6b8e1d35u
#define DEAD    0xdead10ccu
#define TAIL    16
#define BIG     99
static struct head* freelist[32];
static uint8_t* arena;
static size_t arena_left;

static void*
get(size_t n, int* zeroed)
{
    size_t cls = 5, total;
    struct head* h;

    *zeroed = 0;
    if(n > 0x7fff0000u)
        return NULL;
    total = n + sizeof(struct head) + TAIL;
    if(total > (1u << 17)) {
        total = (total + 4095) & ~(size_t) 4095;
        h = (struct head*) mmap(NULL, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(h == (struct head*) MAP_FAILED)
            return NULL;
        cls = BIG;
        *zeroed = 1;
    } else {
        while(((size_t) 1 << cls) < total)
            cls++;
        h = freelist[cls];
        if(h != NULL) {
            if(h->canary != DEAD)
                die("HEAP: a released block was written to");
            freelist[cls] = h->next;
        } else {
            size_t k = (size_t) 1 << cls;
            if(arena_left < k) {
                arena = (uint8_t*) mmap(NULL, 1u << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                if(arena == (uint8_t*) MAP_FAILED) {
                    arena_left = 0;
                    return NULL;
                }
                arena_left = 1u << 20;
            }
            h = (struct head*) arena;
            arena += k;
            arena_left -= k;
        }
    }
    h->size = n;
    h->cls = cls;
    h->next = NULL;
    h->canary = LIVE ^ (uint32_t) n;
    memset((uint8_t*) (h + 1) + n, 0x7e, TAIL);
    return h + 1;
}

static struct head*
check(void* p)
{
    struct head* h = (struct head*) p - 1;
    int i;
    if(((uintptr_t) p & 15) != 0)
        die("HEAP: not a block");
    if(h->canary == DEAD)
        die("HEAP: released twice");
    if(h->canary != (LIVE ^ (uint32_t) h->size))
        die("HEAP: the bytes before a block were overwritten");
    for(i = 0; i < TAIL; i++) {
        if(((uint8_t*) p)[h->size + (size_t) i] != 0x7e)
            die("HEAP: the bytes after a block were overwritten");
    }
    return h;
}

void* malloc(size_t n) { int z; void* p = get(n, &z); if(p == NULL) my_errno = ENOMEM; return p; }
void
free(void* p)
{
    struct head* h;
    if(p == NULL)
        return;
    h = check(p);
    if(h->cls == BIG) {
        munmap(h, (h->size + sizeof(struct head) + TAIL + 4095) & ~(size_t) 4095);
        return;
    }
    memset(p, 0xdf, h->size);
    h->canary = DEAD;
    h->next = freelist[h->cls];
    freelist[h->cls] = h;
}
void*
calloc(size_t a, size_t b)
{
    size_t n;
    int z;
    void* p;
    if(__builtin_mul_overflow(a, b, &n))
        return NULL;
    p = get(n, &z);
    if(p != NULL && !z)
        memset(p, 0, n);
    return p;
}
void*
realloc(void* p, size_t n)
{
    void* q;
    size_t k;
    if(p == NULL)
        return malloc(n);
    k = check(p)->size;
    q = malloc(n);
    if(q == NULL)
        return NULL;
    memcpy(q, p, (k < n) ? k : n);
    free(p);
    return q;
}
size_t malloc_usable_size(void* p) { return (p != NULL) ? check(p)->size : 0; }

/* ---- files and printing ---- */

struct file { int fd; size_t n; char buf[4000]; };
static struct file err_file = { 2, 0, { 0 } };
static struct file out_file = { 1, 0, { 0 } };
FILE* stderr = (FILE*) &err_file;
FILE* stdout = (FILE*) &out_file;

int
fflush(FILE* f)
{
    struct file* g = (struct file*) f;
    size_t i = 0;
    while(i < g->n) {
        long r = sys(4, g->fd, (long) (g->buf + i), (long) (g->n - i), 0, 0, 0);
        if(r <= 0)
            break;
        i += (size_t) r;
    }
    g->n = 0;
    return 0;
}
static void
put(struct file* g, const char* s, size_t n)
{
    while(n > 0) {
        if(g->n == sizeof(g->buf))
            fflush((FILE*) g);
        g->buf[g->n++] = *s++;
        n--;
    }
    if(g->fd == 2)
        fflush((FILE*) g);
}
int fputc(int c, FILE* f) { char ch = (char) c; put((struct file*) f, &ch, 1); return c; }
int putc(int c, FILE* f) { return fputc(c, f); }
int fputs(const char* s, FILE* f) { put((struct file*) f, s, strlen(s)); return 0; }
int puts(const char* s) { fputs(s, stdout); fputc('\n', stdout); fflush(stdout); return 0; }
int putchar(int c) { return fputc(c, stdout); }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { put((struct file*) f, (const char*) p, s * n); return n; }
FILE*
fopen(const char* path, const char* mode)
{
    int flags = O_WRONLY | O_CREAT | ((mode[0] == 'a') ? O_APPEND : O_TRUNC);
    long fd = sys(5, (long) path, flags, 0644, 0, 0, 0);
    struct file* g;
    if(fd < 0)
        return NULL;
    g = (struct file*) malloc(sizeof(struct file));
    g->fd = (int) fd;
    g->n = 0;
    return (FILE*) g;
}
int
fclose(FILE* f)
{
    fflush(f);
    close(((struct file*) f)->fd);
    free(f);
    return 0;
}

static size_t
fmt_num(char* out, unsigned long long v, unsigned base)
{
    char tmp[32];
    size_t n = 0, i;
    do {
        tmp[n++] = "0123456789abcdef"[v % base];
        v /= base;
    } while(v != 0);
    for(i = 0; i < n; i++)
        out[i] = tmp[n - 1 - i];
    return n;
}

typedef void (*SINK)(void* ctx, const char* s, size_t n);

static int
format(SINK sink, void* ctx, const char* fmt, va_list ap)
{
    int total = 0;
    while(*fmt != '\0') {
        const char* p = fmt;
        char buf[64];
        size_t n = 0;
        const char* s = buf;
        int lng = 0, left = 0, zero = 0, alt = 0, width = 0, prec = -1;
        while(*p != '\0' && *p != '%')
            p++;
        if(p > fmt) {
            sink(ctx, fmt, (size_t) (p - fmt));
            total += (int) (p - fmt);
            fmt = p;
            continue;
        }
        p++;
        for(; *p == '-' || *p == '0' || *p == '#' || *p == '+' || *p == ' '; p++) {
            if(*p == '-') left = 1;
            if(*p == '0') zero = 1;
            if(*p == '#') alt = 1;
        }
        if(*p == '*') { width = va_arg(ap, int); p++; }
        while(*p >= '0' && *p <= '9') width = width * 10 + (*p++ - '0');
        if(*p == '.') {
            p++;
            prec = 0;
            if(*p == '*') { prec = va_arg(ap, int); p++; }
            while(*p >= '0' && *p <= '9') prec = prec * 10 + (*p++ - '0');
        }
        for(; ; p++) {
            if(*p == 'l') lng++;
            else if(*p == 'L') lng = 9;
            else if(*p == 'j') lng = 2;
            else if(*p != 'h' && *p != 'z' && *p != 't') break;
        }
        switch(*p) {
            case 'd': case 'i': {
                long long v = (lng >= 2) ? va_arg(ap, long long) : va_arg(ap, int);
                if(v < 0) {
                    buf[0] = '-';
                    n = 1 + fmt_num(buf + 1, 0 - (unsigned long long) v, 10);
                } else {
                    n = fmt_num(buf, (unsigned long long) v, 10);
                }
                break;
            }
            case 'u': case 'x': case 'X': case 'o': {
                unsigned long long v = (lng >= 2) ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
                if(alt && *p == 'x') { buf[n++] = '0'; buf[n++] = 'x'; }
                n += fmt_num(buf + n, v, (*p == 'u') ? 10 : (*p == 'o') ? 8 : 16);
                break;
            }
            case 'p':
                buf[0] = '0'; buf[1] = 'x';
                n = 2 + fmt_num(buf + 2, (uintptr_t) va_arg(ap, void*), 16);
                break;
            case 'c':
                buf[0] = (char) va_arg(ap, int);
                n = 1;
                break;
            case 's':
                s = va_arg(ap, const char*);
                if(s == NULL)
                    s = "(null)";
                n = strnlen(s, (prec >= 0) ? (size_t) prec : SIZE_MAX);
                break;
            case 'f': case 'g': case 'e': case 'a': {
                /* Enough for a report. */
                long double v = (lng == 9) ? va_arg(ap, long double) : (long double) va_arg(ap, double);
                unsigned long long w;
                if(v != v) { s = "nan"; n = 3; break; }
                if(v < 0) { buf[n++] = '-'; v = -v; }
                if(v > 1e18L) { memcpy(buf + n, "huge", 4); n += 4; break; }
                w = (unsigned long long) v;
                n += fmt_num(buf + n, w, 10);
                buf[n++] = '.';
                v -= (long double) w;
                for(w = 0; w < 9; w++) {
                    int dg = (int) (v * 10);
                    buf[n++] = (char) ('0' + dg);
                    v = v * 10 - dg;
                }
                break;
            }
            case '%':
                buf[0] = '%';
                n = 1;
                break;
            default:
                die("printf: unknown conversion");
        }
        p++;
        total += (int) n;
        if(!left) for(; (size_t) width > n && width > 0; width--) { sink(ctx, zero ? "0" : " ", 1); total++; }
        sink(ctx, s, n);
        if(left) for(; (size_t) width > n && width > 0; width--) { sink(ctx, " ", 1); total++; }
        fmt = p;
    }
    return total;
}

static void file_sink(void* ctx, const char* s, size_t n) { put((struct file*) ctx, s, n); }
struct span { char* p; size_t left; };
static void
span_sink(void* ctx, const char* s, size_t n)
{
    struct span* sp = (struct span*) ctx;
    if(n > sp->left)
        n = sp->left;
    memcpy(sp->p, s, n);
    sp->p += n;
    sp->left -= n;
}

int vfprintf(FILE* f, const char* fmt, va_list ap) { return format(file_sink, f, fmt, ap); }
int
fprintf(FILE* f, const char* fmt, ...)
{
    va_list ap;
    int r;
    va_start(ap, fmt);
    r = vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
int
printf(const char* fmt, ...)
{
    va_list ap;
    int r;
    va_start(ap, fmt);
    r = vfprintf(stdout, fmt, ap);
    va_end(ap);
    fflush(stdout);
    return r;
}
int
vsnprintf(char* out, size_t size, const char* fmt, va_list ap)
{
    struct span sp;
    int r;
    sp.p = out;
    sp.left = (size > 0) ? size - 1 : 0;
    r = format(span_sink, &sp, fmt, ap);
    if(size > 0)
        *sp.p = '\0';
    return r;
}
int
snprintf(char* out, size_t size, const char* fmt, ...)
{
    va_list ap;
    int r;
    va_start(ap, fmt);
    r = vsnprintf(out, size, fmt, ap);
    va_end(ap);
    return r;
}
int
sprintf(char* out, const char* fmt, ...)
{
    va_list ap;
    int r;
    va_start(ap, fmt);
    r = vsnprintf(out, 0x10000000, fmt, ap);
    va_end(ap);
    return r;
}

/* ---- start ---- */

int main(int argc, char** argv);
void start_c(long* sp) __attribute__((used, noreturn));
void
start_c(long* sp)
{
    int r = main((int) sp[0], (char**) (sp + 1));
    fflush(stdout);
    _exit(r);
}
__asm__(".globl _start\n_start:\n\txorl %ebp, %ebp\n\tmovl %esp, %eax\n\tandl $-16, %esp\n\tsubl $12, %esp\n\tpushl %eax\n\tcall start_c\n");
int sched_yield(void); int sched_yield(void) { return 0; }
