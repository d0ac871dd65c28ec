/* libsim: the deterministic simulator that the real vvflow tools run inside.
 *
 * It is linked first into vvflow, vvplot and vvxtract and takes over every
 * source of nondeterminism they have:
 *   threads   libgomp's ABI (GOMP_*, omp_*) on parked threads, one runs at a time;
 *             a seeded scheduler decides at every memory access (-fsanitize=thread
 *             instrumentation calls into here) and at every OpenMP construct
 *   races     a vector-clock happens-before detector over the same accesses
 *   I/O       open/read/write/... and stdio, with injected faults and kills
 *   clock     clock_gettime/time/gettimeofday are simulated
 *   memory    malloc is an own arena: fixed addresses, seeded garbage, failures
 * Every decision is a pure function of the configuration string SIMCFG.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
#define EXPORT __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

/* ------------------------------------------------------------ raw helpers */
static long sys6(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
#define SYS(n, ...) SYS_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define SYS_(n, a, b, c, d, e, f, ...) \
    sys6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static inline long ret_errno(long r)
{
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
static inline void raw_copy(void* d, const void* s, size_t n)
{
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static inline void raw_set(void* d, int v, size_t n)
{
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}
static size_t slen(const char* s)
{
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
static int sncmp(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        if (a[i] != b[i]) return (u8)a[i] - (u8)b[i];
        if (!a[i]) return 0;
    }
    return 0;
}
static const char* sfind(const char* h, const char* n)
{
    size_t l = slen(n);
    if (!l) return h;
    for (; *h; h++)
        if (!sncmp(h, n, l)) return h;
    return NULL;
}
static u64 mix(u64 x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static u64 rnd(u64 seed, u64 stream, u64 n) { return mix(seed ^ mix(stream * 0x1000193 + mix(n))); }

/* -------------------------------------------------------------------- log */
enum {
    C_EV, C_SWITCH, C_FORCED, C_REGION, C_LOOP, C_CHUNK, C_CRIT, C_BARRIER, C_RACE,
    C_READ, C_WRITE, C_OPEN, C_CLOSE, C_TRUNC, C_RENAME, C_MKDIR, C_UNLINK, C_SYNC, C_MUT,
    C_FERR_READ, C_FERR_WRITE, C_FERR_OPEN, C_FERR_CLOSE, C_FERR_TRUNC, C_FERR_RENAME,
    C_FERR_MKDIR, C_FERR_OTHER, C_FSHORT_READ, C_FSHORT_WRITE, C_FENOSPC, C_FEOF,
    C_KILL, C_TORN, C_MALLOC, C_FMALLOC, C_CLOCK, C_CLKJUMP, C_SIMNS, C_DEADLOCK,
    C_SCHEDHASH, C_INIT, C_RBYTES, C_WBYTES, C_EXEC, C_FEXEC, C_MEMFD, C_SHADOWFULL,
    C_MAXHEAP, C_STUCK, C_FEINTR, C_HEAL, C_FLIP, C_NFAULT, C_THREADS,
    C_EXITING, C_N
};
struct simlog {
    u64 magic;
    u64 c[96];
    u64 nsw;
    u64 tlen;
    u64 pad[413];
};
#define SW_MAX 65536
#define LOGSZ (4096 + SW_MAX * 16 + (6 << 20))
static struct simlog log_dummy;
static struct simlog* lg = &log_dummy;
static u64* sw_area;
static char* tr_area;
static u64 tr_max;
#define CNT(i) (lg->c[i]++)

static void tr_put(const char* s, size_t n)
{
    if (!tr_area || lg->tlen + n >= tr_max) return;
    raw_copy(tr_area + lg->tlen, s, n);
    lg->tlen += n;
}
static void tr_s(const char* s) { tr_put(s, slen(s)); }
static void tr_d(long v)
{
    char b[24];
    int i = 24;
    int neg = v < 0;
    u64 u = neg ? -(u64)v : (u64)v;
    do {
        b[--i] = '0' + u % 10;
        u /= 10;
    } while (u);
    if (neg) b[--i] = '-';
    tr_put(b + i, 24 - i);
}
static void tr_x(u64 v)
{
    char b[16];
    for (int i = 0; i < 16; i++) b[i] = "0123456789abcdef"[(v >> (60 - 4 * i)) & 15];
    tr_put(b, 16);
}

/* ----------------------------------------------------------------- config */
#define MAXT 8
#define NRULE 32
struct rule {
    char kind;       /* O C R W T S X N U M A E Q(memfd) */
    char path[64];   /* substring of the name, "" = any */
    u64 n;           /* n-th matching operation, 1-based */
    int sticky;      /* from the n-th on */
    char act;        /* e=errno s=short k=kill z=eof f=flip */
    long arg;
    u64 seen;
    int fired;
};
static struct {
    int on;
    u64 seed;
    int threads;
    int sched;      /* 0 none 1 random 2 pct 3 replay 4 order */
    u64 prob;       /* preemption probability per access, per 2^32 */
    int chunk;      /* 0 as asked, 1 seeded */
    int race;
    int teamvar;
    int trace;
    u64 pct_d, pct_len;
    u64 heapseed;
    int heapfill;
    u64 mallocfail;
    int mallocsticky;
    int clk;
    u64 clkseed;
    u64 clkbase;
    u64 clkwall;
    char clkop[32];
    int sites; /* trace where allocations happen */
    u64 kill_n;
    int kill_frac;
    int full_on;
    u64 full_left;
    char full_path[64];
    u64 full_heal;
    int shortio;    /* per 1000 */
    int outerr;
    u64 maxev;
} cf = {.threads = 1};
static struct rule rules[NRULE];
static int nrule;
static u64* rsw; /* replayed switches */
static u64 nrsw, irsw;

static u64 num(const char* s)
{
    u64 v = 0;
    while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0');
    return v;
}

/* ------------------------------------------------------------------ malloc */
#define ARENA ((char*)0x600000000000ull)
#define ARENA_SZ (12ull << 30)
struct hdr {
    u32 magic;
    u32 cls;
    u64 size;
};
struct fnode {
    struct fnode* next;
};
#define NCLS 256
static char* ar_cur;
static char* ar_end;
static struct {
    struct fnode *head, *tail;
    u64 n;
} fl[NCLS];
static u64 nmalloc;
static int heap_live; /* garbage/failures active */

static int cls_of(size_t n, size_t* sz)
{
    if (n < 16) n = 16;
    if (n <= 1024) {
        int c = (n + 15) / 16;
        *sz = c * 16;
        return c;
    }
    int c = 65;
    size_t b = 1024;
    for (;;) {
        for (int q = 1; q <= 4; q++, c++) {
            size_t s = b + b / 4 * q;
            if (n <= s) {
                *sz = s;
                return c;
            }
        }
        b *= 2;
        if (c >= NCLS - 4) return -1;
    }
}
static void garbage(void* p, size_t n, u64 salt)
{
    u64* w = p;
    u64 v;
    if (n > (1 << 20)) n = 1 << 20;
    switch (cf.heapfill) {
    case 1: raw_set(p, 0xff, n); return;
    case 2: v = 0x7ff8dead00000000ull; break; /* nan */
    case 3: v = 0x4341c37937e08000ull; break; /* 1e16 */
    case 4: v = 0x0000000100000001ull; break;
    case 5: v = mix(cf.heapseed ^ salt); break;
    case 6: v = 0xc000000000000000ull; break; /* -2.0 */
    default: raw_set(p, 0, n); return;
    }
    for (size_t i = 0; i < n / 8; i++) {
        w[i] = v;
        if (cf.heapfill == 5) v = v * 6364136223846793005ull + 1442695040888963407ull;
    }
}
static void shadow_clear(void* p, size_t n);
static int in_region;

static __attribute__((noinline)) void malloc_failed(void) /* a place for breakpoints */
{
    CNT(C_FMALLOC);
    __asm__ volatile("");
}
/* Where allocations happen: the nearest return addresses into the program that
 * can be found on the stack.  Occurrences 1, 2, 4, 8... of each are traced. */
static struct { u64 lo, hi; } text[2]; /* the program, libvvhd */
static int in_text(u64 x) { return (x >= text[0].lo && x < text[0].hi) || (x >= text[1].lo && x < text[1].hi); }
static u64 text_off(u64 x) { return !x ? 0 : x >= text[0].lo && x < text[0].hi ? x - text[0].lo : x - text[1].lo + 1000000000; }
static struct { u64 a, b, n; } sitetab[4096];
static __attribute__((noinline)) void site(void)
{
    u64* p = (u64*)__builtin_frame_address(0);
    u64 a[2] = {0, 0};
    int n = 0;
    for (int i = 0; i < 160 && n < 2; i++)
        if (in_text(p[i]) && (!n || p[i] != a[0])) a[n++] = p[i];
    u64 h = (a[0] * 0x9e3779b97f4a7c15ull + a[1]) * 0xff51afd7ed558ccdull >> 52;
    for (int k = 0; k < 4096; k++, h = (h + 1) & 4095) {
        if (!sitetab[h].n) {
            sitetab[h].a = a[0];
            sitetab[h].b = a[1];
        } else if (sitetab[h].a != a[0] || sitetab[h].b != a[1]) continue;
        if (++sitetab[h].n & (sitetab[h].n - 1)) return;
        tr_s("site ");
        tr_d(text_off(a[0]));
        tr_s(" ");
        tr_d(text_off(a[1]));
        tr_s(" ");
        tr_d(lg->c[C_MALLOC]);
        tr_s("\n");
        return;
    }
}
static void* m_alloc(size_t n)
{
    if (unlikely(!ar_cur)) {
        long r = SYS(SYS_mmap, ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (r != (long)ARENA) {
            r = SYS(SYS_mmap, 0, ARENA_SZ, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (r < 0 && r > -4096) return NULL;
        }
        ar_cur = (char*)r;
        ar_end = ar_cur + ARENA_SZ;
    }
    nmalloc++;
    if (heap_live) {
        CNT(C_MALLOC);
        if (unlikely(cf.sites)) site();
        if (unlikely(cf.mallocfail) &&
            (lg->c[C_MALLOC] == cf.mallocfail ||
             (cf.mallocsticky && lg->c[C_MALLOC] > cf.mallocfail))) {
            malloc_failed();
            errno = ENOMEM;
            return NULL;
        }
    }
    size_t sz;
    int c = cls_of(n, &sz);
    if (c < 0) {
        errno = ENOMEM;
        return NULL;
    }
    struct hdr* h;
    u64 keep = heap_live ? (cf.heapseed & 7) * 3 : 0;
    if (fl[c].n > keep) {
        struct fnode* f = fl[c].head;
        fl[c].head = f->next;
        if (!f->next) fl[c].tail = NULL;
        fl[c].n--;
        h = (struct hdr*)((char*)f - 16);
    } else {
        if (ar_cur + sz + 16 > ar_end) {
            errno = ENOMEM;
            return NULL;
        }
        h = (struct hdr*)ar_cur;
        ar_cur += sz + 16;
    }
    h->magic = 0x51a10c8d;
    h->cls = c;
    h->size = n;
    void* p = (char*)h + 16;
    if (heap_live) {
        if (cf.heapfill) garbage(p, n, nmalloc);
        if (in_region) shadow_clear(p, n);
    }
    return p;
}
static struct hdr* m_hdr(void* p)
{
    struct hdr* h = (struct hdr*)((char*)p - 16);
    if (h->magic == 0xa116ed00) h = (struct hdr*)((char*)p - h->size - 16);
    return h;
}
static void m_free(void* p)
{
    if (!p) return;
    if ((char*)p < ARENA || (char*)p >= ARENA + ARENA_SZ) {
        if (!ar_cur || (char*)p < ar_end - ARENA_SZ || (char*)p >= ar_end) return;
    }
    struct hdr* h = m_hdr(p);
    if (h->magic != 0x51a10c8d) {
        static const char m[] = "sim: free of an invalid pointer\n";
        SYS(SYS_write, 2, m, sizeof m - 1);
        tr_s("!badfree\n");
        abort();
    }
    h->magic = 0xdeadf2ee;
    struct fnode* f = (struct fnode*)((char*)h + 16);
    if (heap_live && cf.heapfill) garbage(f, h->size, nmalloc + 77);
    f->next = NULL;
    if (heap_live && (cf.heapseed & 8)) { /* reuse the most recent first */
        f->next = fl[h->cls].head;
        fl[h->cls].head = f;
        if (!fl[h->cls].tail) fl[h->cls].tail = f;
    } else if (fl[h->cls].tail) {
        fl[h->cls].tail->next = f;
        fl[h->cls].tail = f;
    } else
        fl[h->cls].head = fl[h->cls].tail = f;
    fl[h->cls].n++;
}
EXPORT void* malloc(size_t n) { return m_alloc(n); }
EXPORT void free(void* p)
{
    int e = errno;
    m_free(p);
    errno = e;
}
EXPORT void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    void* p = m_alloc(n);
    if (p) raw_set(p, 0, n);
    return p;
}
EXPORT void* realloc(void* p, size_t n)
{
    if (!p) return m_alloc(n);
    if (!n) {
        free(p);
        return NULL;
    }
    struct hdr* h = m_hdr(p);
    void* q = m_alloc(n);
    if (!q) return NULL;
    size_t o = h->size;
    raw_copy(q, p, o < n ? o : n);
    m_free(p);
    return q;
}
EXPORT void* reallocarray(void* p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return realloc(p, n);
}
EXPORT void* memalign(size_t al, size_t n)
{
    if (al <= 16) return m_alloc(n);
    char* p = m_alloc(n + al + 16);
    if (!p) return NULL;
    char* q = (char*)(((u64)p + 16 + al - 1) & ~(u64)(al - 1));
    struct hdr* h = (struct hdr*)(q - 16);
    h->magic = 0xa116ed00;
    h->cls = 0;
    h->size = q - p;
    return q;
}
EXPORT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void** o, size_t al, size_t n)
{
    void* p = memalign(al, n);
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
EXPORT void* valloc(size_t n) { return memalign(4096, n); }
EXPORT size_t malloc_usable_size(void* p)
{
    if (!p) return 0;
    struct hdr* h = (struct hdr*)((char*)p - 16);
    if (h->magic == 0xa116ed00) {
        struct hdr* b = m_hdr(p);
        return b->size - h->size;
    }
    return h->size;
}

/* --------------------------------------------------------------- scheduler */
struct vc {
    u32 c[MAXT];
};
struct team {
    int n;
    int arrived;
    u64 bargen;
    struct vc barvc;
};
struct ws { /* one work-sharing construct of a team */
    int init;
    long next, end, incr, chunk;
    u64 unext, uend, uincr, uchunk;
    int up, ull, guided;
    int claimed;
    u64 section, nsection;
    void* copy;
    u64 order_next;
};
struct thr {
    pthread_t th;
    int go;      /* futex */
    int state;   /* 0 parked, 1 runnable, 2 blocked */
    const void* on;
    void (*fn)(void*);
    void* data;
    u64 wsidx;
    struct ws* ws;
    int in_team;
    struct vc vc;
    u64 prio;
    char* stk_lo;
    char* stk_hi;
    int nest;
    long lend;
};
static struct thr T[MAXT];
static struct team team;
static __thread int me;
static int cur;
static u64 ev;
static u64 loopno;
static u64 gen = 1; /* shadow generation */
static struct ws* wsarr;
static u64 wscap, wsused;
static u64 schedhash;
static u64 pct_pts[16];
static int npct;

static void futex_wait(int* a, int v) { SYS(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(int* a) { SYS(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void park(int t)
{
    while (!__atomic_load_n(&T[t].go, __ATOMIC_ACQUIRE)) futex_wait(&T[t].go, 0);
    __atomic_store_n(&T[t].go, 0, __ATOMIC_RELAXED);
}
static void handoff(int to)
{
    int self = me;
    if (to == self) return;
    schedhash = mix(schedhash ^ (ev << 4) ^ to);
    lg->c[C_SCHEDHASH] = schedhash;
    lg->c[C_EV] = ev;
    CNT(C_SWITCH);
    if (sw_area && lg->nsw < SW_MAX) {
        sw_area[2 * lg->nsw] = ev;
        sw_area[2 * lg->nsw + 1] = to;
        lg->nsw++;
    }
    cur = to;
    __atomic_store_n(&T[to].go, 1, __ATOMIC_RELEASE);
    futex_wake(&T[to].go);
    park(self);
}
static int runnable(int* list)
{
    int n = 0;
    for (int i = 0; i < team.n; i++)
        if (T[i].state == 1) list[n++] = i;
    return n;
}
static int pct_best(int* l, int n)
{
    int b = l[0];
    for (int i = 1; i < n; i++)
        if (T[l[i]].prio > T[b].prio) b = l[i];
    return b;
}
static void sim_die(const char* why, int code)
{
    tr_s(why);
    SYS(SYS_write, 2, why, slen(why));
    SYS(SYS_exit_group, code);
    for (;;) {}
}
/* the running thread cannot continue: somebody else has to */
static void must_switch(void)
{
    int l[MAXT];
    int n = runnable(l);
    if (!n) {
        CNT(C_DEADLOCK);
        sim_die("!deadlock: every thread is blocked\n", 97);
    }
    CNT(C_FORCED);
    ev++;
    int to;
    if (cf.sched == 3) {
        while (irsw < nrsw && rsw[2 * irsw] < ev) irsw++;
        to = l[0];
        if (irsw < nrsw && rsw[2 * irsw] == ev) {
            int w = rsw[2 * irsw + 1];
            for (int i = 0; i < n; i++)
                if (l[i] == w) to = w;
            irsw++;
        }
    } else if (cf.sched == 2)
        to = pct_best(l, n);
    else if (cf.sched == 0)
        to = l[0];
    else
        to = l[rnd(cf.seed, 2, ev) % n];
    handoff(to);
}
static void yield_slow(void)
{
    int l[MAXT];
    ev++;
    if (cf.maxev && ev > cf.maxev) {
        CNT(C_STUCK);
        sim_die("!step limit reached inside a parallel region\n", 96);
    }
    int to = -1;
    switch (cf.sched) {
    case 1:
        if ((rnd(cf.seed, 1, ev) & 0xffffffffu) < cf.prob) {
            int n = runnable(l);
            to = l[(rnd(cf.seed, 1, ev) >> 33) % n];
        }
        break;
    case 2: {
        for (int i = 0; i < npct; i++)
            if (pct_pts[i] == ev) {
                T[me].prio = 100 - i;
                int n = runnable(l);
                to = pct_best(l, n);
            }
        break;
    }
    case 3:
        while (irsw < nrsw && rsw[2 * irsw] < ev) irsw++;
        if (irsw < nrsw && rsw[2 * irsw] == ev) {
            int w = rsw[2 * irsw + 1];
            irsw++;
            if (w < team.n && T[w].state == 1) to = w;
        }
        break;
    }
    if (to >= 0) handoff(to);
}
static inline void yield_point(void)
{
    if (in_region && T[me].in_team) yield_slow();
}

/* vector clocks */
static void vc_join(struct vc* a, const struct vc* b)
{
    for (int i = 0; i < MAXT; i++)
        if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}
#define NSYNC 4096
static struct {
    u64 addr, gen;
    struct vc vc;
} syncs[NSYNC];
static struct vc* sync_of(const void* p)
{
    u64 a = (u64)p;
    u64 i = mix(a) % NSYNC;
    for (int k = 0; k < NSYNC; k++, i = (i + 1) % NSYNC) {
        if (syncs[i].gen != gen) {
            syncs[i].gen = gen;
            syncs[i].addr = a;
            raw_set(&syncs[i].vc, 0, sizeof(struct vc));
            return &syncs[i].vc;
        }
        if (syncs[i].addr == a) return &syncs[i].vc;
    }
    return &syncs[0].vc;
}
static void rel(const void* p)
{
    vc_join(sync_of(p), &T[me].vc);
    T[me].vc.c[me]++;
}
static void acq(const void* p) { vc_join(&T[me].vc, sync_of(p)); }

/* shadow memory */
struct cell {
    u64 addr, gen;
    u32 wc[MAXT], rc[MAXT];
    u8 wm[MAXT], rm[MAXT];
    u64 wpc, rpc;
};
#define NSHADOW (1u << 17)
static struct cell* shadow;
static u64 shadow_used;
static u64 nrace_reported;

static struct cell* cell_of(u64 g)
{
    u64 i = mix(g) & (NSHADOW - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (NSHADOW - 1)) {
        struct cell* c = &shadow[i];
        if (c->gen != gen) {
            c->gen = gen;
            c->addr = g;
            raw_set(c->wc, 0, sizeof c->wc);
            raw_set(c->rc, 0, sizeof c->rc);
            raw_set(c->wm, 0, sizeof c->wm);
            raw_set(c->rm, 0, sizeof c->rm);
            return c;
        }
        if (c->addr == g) return c;
    }
    CNT(C_SHADOWFULL);
    return NULL;
}
static void shadow_clear(void* p, size_t n)
{
    if (!shadow) return;
    u64 a = (u64)p >> 3, e = ((u64)p + n + 7) >> 3;
    if (e - a > 4096) e = a + 4096;
    for (; a < e; a++) {
        u64 i = mix(a) & (NSHADOW - 1);
        for (int k = 0; k < 64; k++, i = (i + 1) & (NSHADOW - 1)) {
            struct cell* c = &shadow[i];
            if (c->gen != gen) break;
            if (c->addr == a) {
                raw_set(c->wm, 0, sizeof c->wm);
                raw_set(c->rm, 0, sizeof c->rm);
                break;
            }
        }
    }
}
static u64 exe_base;
static void race_report(u64 addr, int w1, u64 pc1, int w2, u64 pc2)
{
    CNT(C_RACE);
    if (nrace_reported++ > 8) return;
    Dl_info a, b;
    raw_set(&a, 0, sizeof a);
    raw_set(&b, 0, sizeof b);
    dladdr((void*)pc1, &a);
    dladdr((void*)pc2, &b);
    tr_s("!race ");
    tr_s(w1 ? "write " : "read ");
    tr_s(a.dli_fname ? a.dli_fname : "?");
    tr_s("+0x");
    tr_x(pc1 - (u64)a.dli_fbase);
    tr_s(" after ");
    tr_s(w2 ? "write " : "read ");
    tr_s(b.dli_fname ? b.dli_fname : "?");
    tr_s("+0x");
    tr_x(pc2 - (u64)b.dli_fbase);
    tr_s("\n");
}
static void access_slow(u64 a, size_t n, int w, u64 pc)
{
    struct thr* t = &T[me];
    if (cf.race && !(me && (char*)a >= t->stk_lo && (char*)a < t->stk_hi)) {
        u64 g = a >> 3, ge = (a + n - 1) >> 3;
        if (ge - g > 512) ge = g + 512;
        for (; g <= ge; g++) {
            u64 lo = a > (g << 3) ? a - (g << 3) : 0;
            u64 hi = a + n < ((g + 1) << 3) ? a + n - (g << 3) : 8;
            u8 m = (u8)(((1u << hi) - 1) & ~((1u << lo) - 1));
            struct cell* c = cell_of(g);
            if (!c) continue;
            for (int u = 0; u < team.n; u++) {
                if (u == me) continue;
                if ((c->wm[u] & m) && c->wc[u] > t->vc.c[u]) {
                    race_report(a, w, pc, 1, c->wpc);
                    c->wm[u] = 0;
                }
                if (w && (c->rm[u] & m) && c->rc[u] > t->vc.c[u]) {
                    race_report(a, w, pc, 0, c->rpc);
                    c->rm[u] = 0;
                }
            }
            u32 k = t->vc.c[me];
            if (w) {
                c->wm[me] = c->wc[me] == k ? c->wm[me] | m : m;
                c->wc[me] = k;
                c->wpc = pc;
            } else {
                c->rm[me] = c->rc[me] == k ? c->rm[me] | m : m;
                c->rc[me] = k;
                c->rpc = pc;
            }
        }
    }
    yield_slow();
}
static inline void acc(const void* a, size_t n, int w, void* pc)
{
    if (unlikely(in_region) && T[me].in_team) access_slow((u64)a, n, w, (u64)pc);
}
#define RA __builtin_return_address(0)
#define TS(n)                                                          \
    EXPORT void __tsan_read##n(void* a) { acc(a, n, 0, RA); }          \
    EXPORT void __tsan_write##n(void* a) { acc(a, n, 1, RA); }         \
    EXPORT void __tsan_unaligned_read##n(void* a) { acc(a, n, 0, RA); }\
    EXPORT void __tsan_unaligned_write##n(void* a) { acc(a, n, 1, RA); } \
    EXPORT void __tsan_volatile_read##n(void* a) { acc(a, n, 0, RA); }  \
    EXPORT void __tsan_volatile_write##n(void* a) { acc(a, n, 1, RA); } \
    EXPORT void __tsan_read_write##n(void* a) { acc(a, n, 0, RA); acc(a, n, 1, RA); }
TS(1) TS(2) TS(4) TS(8) TS(16)
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void* p) { (void)p; }
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v) acc(p, 8, 1, RA);
}
EXPORT void __tsan_vptr_read(void** p) { acc(p, 8, 0, RA); }
EXPORT void __tsan_read_range(void* a, size_t n) { if (n) acc(a, n, 0, RA); }
EXPORT void __tsan_write_range(void* a, size_t n) { if (n) acc(a, n, 1, RA); }
EXPORT void __tsan_ignore_thread_begin(void) {}
EXPORT void __tsan_ignore_thread_end(void) {}

static void at_sync(const volatile void* a, int mo)
{
    if (!in_region || !T[me].in_team) return;
    yield_slow();
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)
        acq((const void*)a);
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) rel((const void*)a);
}
#define AT(b, ty)                                                                       \
    EXPORT ty __tsan_atomic##b##_load(const volatile ty* a, int mo)                     \
    { at_sync(a, mo); return *a; }                                                      \
    EXPORT void __tsan_atomic##b##_store(volatile ty* a, ty v, int mo)                  \
    { at_sync(a, mo); *a = v; }                                                         \
    EXPORT ty __tsan_atomic##b##_exchange(volatile ty* a, ty v, int mo)                 \
    { at_sync(a, mo); ty o = *a; *a = v; return o; }                                    \
    EXPORT ty __tsan_atomic##b##_fetch_add(volatile ty* a, ty v, int mo)                \
    { at_sync(a, mo); ty o = *a; *a = o + v; return o; }                                \
    EXPORT ty __tsan_atomic##b##_fetch_sub(volatile ty* a, ty v, int mo)                \
    { at_sync(a, mo); ty o = *a; *a = o - v; return o; }                                \
    EXPORT ty __tsan_atomic##b##_fetch_and(volatile ty* a, ty v, int mo)                \
    { at_sync(a, mo); ty o = *a; *a = o & v; return o; }                                \
    EXPORT ty __tsan_atomic##b##_fetch_or(volatile ty* a, ty v, int mo)                 \
    { at_sync(a, mo); ty o = *a; *a = o | v; return o; }                                \
    EXPORT ty __tsan_atomic##b##_fetch_xor(volatile ty* a, ty v, int mo)                \
    { at_sync(a, mo); ty o = *a; *a = o ^ v; return o; }                                \
    EXPORT int __tsan_atomic##b##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int mo, int fmo) \
    { (void)fmo; at_sync(a, mo); ty o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    EXPORT int __tsan_atomic##b##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int mo, int fmo) \
    { (void)fmo; at_sync(a, mo); ty o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    EXPORT ty __tsan_atomic##b##_compare_exchange_val(volatile ty* a, ty c, ty v, int mo, int fmo) \
    { (void)fmo; at_sync(a, mo); ty o = *a; if (o == c) *a = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64) AT(128, unsigned __int128)
EXPORT void __tsan_atomic_thread_fence(int mo) { at_sync(&team, mo); }
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* block copies made by instrumented code are accesses too */
EXPORT void* memcpy(void* d, const void* s, size_t n)
{
    if (unlikely(in_region) && n) { acc(s, n, 0, RA); acc(d, n, 1, RA); }
    raw_copy(d, s, n);
    return d;
}
EXPORT void* memmove(void* d, const void* s, size_t n)
{
    if (unlikely(in_region) && n) { acc(s, n, 0, RA); acc(d, n, 1, RA); }
    if (d == s || !n) return d;
    if ((char*)d < (char*)s || (char*)d >= (char*)s + n) {
        raw_copy(d, s, n);
    } else {
        char* dd = (char*)d + n - 1;
        const char* ss = (const char*)s + n - 1;
        __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
    }
    return d;
}
EXPORT void* memset(void* d, int v, size_t n)
{
    if (unlikely(in_region) && n) acc(d, n, 1, RA);
    raw_set(d, v, n);
    return d;
}
EXPORT void* __memcpy_chk(void* d, const void* s, size_t n, size_t l) { (void)l; return memcpy(d, s, n); }
EXPORT void* __memmove_chk(void* d, const void* s, size_t n, size_t l) { (void)l; return memmove(d, s, n); }
EXPORT void* __memset_chk(void* d, int v, size_t n, size_t l) { (void)l; return memset(d, v, n); }

/* function-local statics: the guard orders the initialisation */
static void* (*r_sym(void** slot, const char* name))(void)
{
    if (!*slot) *slot = dlsym(RTLD_NEXT, name);
    return (void* (*)(void))*slot;
}
EXPORT int __cxa_guard_acquire(char* g)
{
    static void* s;
    yield_point();
    while (in_region && T[me].in_team && !g[0] && g[1]) { /* someone initialises */
        T[me].state = 2;
        T[me].on = g;
        must_switch();
    }
    if (in_region && T[me].in_team) acq(g);
    (void)s;
    if (g[0]) return 0;
    g[1] = 1;
    return 1;
}
EXPORT void __cxa_guard_release(char* g)
{
    g[0] = 1;
    g[1] = 0;
    if (in_region) {
        rel(g);
        for (int i = 0; i < team.n; i++)
            if (T[i].state == 2 && T[i].on == g) T[i].state = 1;
        yield_point();
    }
}
EXPORT void __cxa_guard_abort(char* g)
{
    g[1] = 0;
    if (in_region)
        for (int i = 0; i < team.n; i++)
            if (T[i].state == 2 && T[i].on == g) T[i].state = 1;
}

/* -------------------------------------------------------------- GOMP layer */
static void barrier(void)
{
    if (!in_region || !T[me].in_team || team.n == 1) return;
    CNT(C_BARRIER);
    yield_slow();
    vc_join(&team.barvc, &T[me].vc);
    if (++team.arrived == team.n) {
        team.arrived = 0;
        team.bargen++;
        for (int i = 0; i < team.n; i++) {
            T[i].vc = team.barvc;
            T[i].vc.c[i]++;
            if (T[i].state == 2 && T[i].on == &team) T[i].state = 1;
        }
        yield_slow();
    } else {
        T[me].state = 2;
        T[me].on = &team;
        must_switch();
    }
}
static void* worker(void* p)
{
    int t = (int)(long)p;
    me = t;
    char probe;
    T[t].stk_hi = (char*)(((u64)&probe + 65536) & ~4095ull);
    T[t].stk_lo = T[t].stk_hi - (4 << 20);
    T[t].state = 0;
    __atomic_store_n(&T[t].go, 0, __ATOMIC_RELAXED);
    __atomic_store_n(&T[0].go, 1, __ATOMIC_RELEASE);
    futex_wake(&T[0].go);
    for (;;) {
        park(t);
        T[t].fn(T[t].data);
        barrier();
        /* the region is over for this worker: hand back without waiting here */
        T[t].state = 0;
        T[t].in_team = 0;
        int l[MAXT];
        int n = runnable(l);
        if (!n) sim_die("!deadlock at the end of a region\n", 97);
        int to;
        ev++;
        if (cf.sched == 3 || cf.sched == 0)
            to = l[0];
        else if (cf.sched == 2)
            to = pct_best(l, n);
        else
            to = l[rnd(cf.seed, 3, ev) % n];
        cur = to;
        __atomic_store_n(&T[to].go, 1, __ATOMIC_RELEASE);
        futex_wake(&T[to].go);
    }
    return NULL;
}
static int pool;
static void make_pool(void)
{
    if (pool || cf.threads < 2) return;
    pool = 1;
    int live = heap_live;
    heap_live = 0;
    for (int i = 1; i < cf.threads; i++) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 4 << 20);
        if (pthread_create(&T[i].th, &at, worker, (void*)(long)i)) sim_die("!no thread\n", 95);
        park(0);
    }
    heap_live = live;
}
struct nestsave {
    struct team tm;
    int nest;
};
EXPORT void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned flags)
{
    (void)flags;
    int n = nt ? (int)nt : cf.threads;
    if (n > cf.threads) n = cf.threads;
    if (n > MAXT) n = MAXT;
    CNT(C_REGION);
    if (cf.teamvar && n > 1) n = 1 + rnd(cf.seed, 4, lg->c[C_REGION]) % n;
    if (in_region || n <= 1) { /* nested or serial: a team of one */
        struct thr* t = &T[me];
        struct ws* w = t->ws;
        int it = t->in_team;
        u64 wi = t->wsidx;
        t->nest++;
        struct ws own;
        (void)own;
        fn(data);
        t->nest--;
        t->ws = w;
        t->in_team = it;
        t->wsidx = wi;
        return;
    }
    make_pool();
    gen++;
    team.n = n;
    team.arrived = 0;
    raw_set(&team.barvc, 0, sizeof team.barvc);
    if (wsarr) raw_set(wsarr, 0, wsused * sizeof(struct ws));
    wsused = 0;
    for (int i = 0; i < n; i++) {
        T[i].fn = fn;
        T[i].data = data;
        T[i].state = 1;
        T[i].in_team = 1;
        T[i].wsidx = 0;
        raw_set(&T[i].vc, 0, sizeof(struct vc));
        T[i].vc.c[i] = 1;
        T[i].prio = 1000 + (rnd(cf.seed, 5, lg->c[C_REGION] * 16 + i) & 0xffffff);
    }
    in_region = 1;
    ev++;
    if (cf.sched == 1 || cf.sched == 4) {
        handoff(rnd(cf.seed, 6, ev) % n);
    } else if (cf.sched == 2) {
        int l[MAXT];
        handoff(pct_best(l, runnable(l)));
    } else if (cf.sched == 3) {
        while (irsw < nrsw && rsw[2 * irsw] < ev) irsw++;
        if (irsw < nrsw && rsw[2 * irsw] == ev) {
            int w = rsw[2 * irsw + 1];
            irsw++;
            if (w < n) handoff(w);
        }
    }
    fn(data);
    barrier();
    /* wait for the workers to leave */
    T[0].in_team = 0;
    for (;;) {
        int more = 0;
        for (int i = 1; i < n; i++)
            if (T[i].state != 0) more = 1;
        if (!more) break;
        T[0].state = 2;
        T[0].on = NULL;
        int l[MAXT];
        int k = runnable(l);
        if (!k) {
            CNT(C_DEADLOCK);
            sim_die("!deadlock: a thread never leaves the parallel region\n", 97);
        }
        T[0].state = 1;
        cur = l[0];
        __atomic_store_n(&T[l[0]].go, 1, __ATOMIC_RELEASE);
        futex_wake(&T[l[0]].go);
        park(0);
    }
    in_region = 0;
    T[0].state = 1;
    lg->c[C_EV] = ev;
}
/* a work-sharing construct: every thread of the team meets the same sequence */
static struct ws solo[16];
static struct ws* ws_enter(int* first)
{
    struct thr* t = &T[me];
    if (!in_region || !t->in_team || t->nest) {
        static int k;
        struct ws* w = &solo[k++ & 15];
        raw_set(w, 0, sizeof *w);
        *first = 1;
        w->init = 1;
        t->ws = w;
        return w;
    }
    yield_slow();
    u64 i = t->wsidx++;
    if (i >= wscap) {
        u64 nc = wscap ? wscap * 2 : 256;
        if (nc <= i) nc = i + 256;
        long r = SYS(SYS_mmap, 0, nc * sizeof(struct ws), PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (wsarr) raw_copy((void*)r, wsarr, wscap * sizeof(struct ws));
        /* pointers into the old array stay valid: it is never unmapped, and
         * threads re-find their construct by index */
        wsarr = (struct ws*)r;
        wscap = nc;
    }
    if (i >= wsused) wsused = i + 1;
    *first = !wsarr[i].init;
    wsarr[i].init = 1;
    t->ws = (struct ws*)(i + 1);
    return &wsarr[i];
}
static struct ws* ws_cur(void)
{
    struct thr* t = &T[me];
    if ((u64)t->ws <= wscap) return &wsarr[(u64)t->ws - 1];
    return t->ws;
}
static long pick_chunk(long c)
{
    loopno++;
    if (c < 1) c = 1;
    if (!cf.chunk || c == 1) return c;
    static const int k[] = {1, 1, 2, 3, 5, 8, 16};
    long v = k[rnd(cf.seed, 7, loopno) % 7];
    return v < c ? v : c;
}
static int loop_next(long* s, long* e)
{
    struct ws* w = ws_cur();
    if (in_region && T[me].in_team) yield_slow();
    w = ws_cur();
    CNT(C_CHUNK);
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return 0;
    *s = w->next;
    long step = w->chunk * w->incr;
    long left = w->end - w->next;
    if (w->incr > 0 ? step >= left : step <= left)
        w->next = w->end;
    else
        w->next += step;
    *e = w->next;
    return 1;
}
static void loop_init(long s, long e, long i, long c)
{
    int first;
    struct ws* w = ws_enter(&first);
    if (first) {
        CNT(C_LOOP);
        w->next = s;
        w->end = (i > 0 && s > e) || (i < 0 && s < e) ? s : e;
        w->incr = i;
        w->chunk = pick_chunk(c);
    }
}
static int uloop_next(unsigned long long* s, unsigned long long* e)
{
    struct ws* w;
    if (in_region && T[me].in_team) yield_slow();
    w = ws_cur();
    CNT(C_CHUNK);
    if (w->up ? w->unext >= w->uend : w->unext <= w->uend) return 0;
    *s = w->unext;
    u64 step = w->uchunk * w->uincr;
    if (w->up) {
        if (w->uend - w->unext <= step) w->unext = w->uend;
        else w->unext += step;
    } else {
        u64 st = -step;
        if (w->unext - w->uend <= st) w->unext = w->uend;
        else w->unext += step;
    }
    *e = w->unext;
    return 1;
}
static void uloop_init(int up, u64 s, u64 e, u64 i, u64 c)
{
    int first;
    struct ws* w = ws_enter(&first);
    if (first) {
        CNT(C_LOOP);
        w->up = up;
        w->unext = s;
        w->uend = up ? (s > e ? s : e) : (s < e ? s : e);
        w->uincr = i;
        w->uchunk = pick_chunk(c);
    }
}
typedef unsigned long long ull;
#define LOOPS(kind)                                                                        \
    EXPORT _Bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) \
    { loop_init(s, e, i, c); return loop_next(a, b); }                                     \
    EXPORT _Bool GOMP_loop_##kind##_next(long* a, long* b) { return loop_next(a, b); }      \
    EXPORT _Bool GOMP_loop_ull_##kind##_start(_Bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) \
    { uloop_init(up, s, e, i, c); return uloop_next(a, b); }                               \
    EXPORT _Bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { return uloop_next(a, b); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
LOOPS(ordered_static) LOOPS(ordered_dynamic)
#define LOOPR(kind)                                                                  \
    EXPORT _Bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b)  \
    { loop_init(s, e, i, 4); return loop_next(a, b); }                               \
    EXPORT _Bool GOMP_loop_##kind##_next(long* a, long* b) { return loop_next(a, b); } \
    EXPORT _Bool GOMP_loop_ull_##kind##_start(_Bool up, ull s, ull e, ull i, ull* a, ull* b) \
    { uloop_init(up, s, e, i, 4); return uloop_next(a, b); }                         \
    EXPORT _Bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { return uloop_next(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
EXPORT void GOMP_loop_end(void) { barrier(); }
EXPORT void GOMP_loop_end_nowait(void) {}
EXPORT _Bool GOMP_loop_end_cancel(void) { barrier(); return 0; }

struct ploop {
    void (*fn)(void*);
    void* data;
    long s, e, i, c;
    void (*real)(void*);
};
static __thread struct ploop* pl_cur;
static void ploop_fn(void* p)
{
    struct ploop* q = p;
    loop_init(q->s, q->e, q->i, q->c);
    q->fn(q->data);
}
#define PLOOP(kind)                                                                     \
    EXPORT void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned nt, long s, \
                                          long e, long i, long c, unsigned fl)          \
    { struct ploop q = {fn, d, s, e, i, c, 0}; GOMP_parallel(ploop_fn, &q, nt, fl); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(kind)                                                                    \
    EXPORT void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned nt, long s, \
                                          long e, long i, unsigned fl)                  \
    { struct ploop q = {fn, d, s, e, i, 4, 0}; GOMP_parallel(ploop_fn, &q, nt, fl); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

EXPORT void GOMP_barrier(void) { barrier(); }
EXPORT _Bool GOMP_barrier_cancel(void) { barrier(); return 0; }
EXPORT _Bool GOMP_cancel(int w, _Bool d) { (void)w; (void)d; return 0; }
EXPORT _Bool GOMP_cancellation_point(int w) { (void)w; return 0; }

/* locks: critical sections, omp locks, atomics */
struct slock {
    const void* key;
    int held, owner, depth;
};
static struct slock locks[256];
static int nlock;
static struct slock* lock_of(const void* k)
{
    for (int i = 0; i < nlock; i++)
        if (locks[i].key == k) return &locks[i];
    if (nlock == 256) nlock = 0;
    locks[nlock].key = k;
    locks[nlock].held = 0;
    return &locks[nlock++];
}
static void lock_(const void* k, int nestable)
{
    CNT(C_CRIT);
    struct slock* l = lock_of(k);
    if (!in_region || !T[me].in_team) {
        l->held++;
        return;
    }
    yield_slow();
    if (nestable && l->held && l->owner == me) {
        l->depth++;
        return;
    }
    while (l->held) {
        T[me].state = 2;
        T[me].on = l;
        must_switch();
    }
    l->held = 1;
    l->owner = me;
    l->depth = 1;
    acq(k);
    yield_slow();
}
static void unlock_(const void* k, int nestable)
{
    struct slock* l = lock_of(k);
    if (!in_region || !T[me].in_team) {
        if (l->held) l->held--;
        return;
    }
    yield_slow();
    if (nestable && --l->depth > 0) return;
    rel(k);
    l->held = 0;
    for (int i = 0; i < team.n; i++)
        if (T[i].state == 2 && T[i].on == l) T[i].state = 1;
    yield_slow();
}
static char key_crit, key_atomic;
EXPORT void GOMP_critical_start(void) { lock_(&key_crit, 0); }
EXPORT void GOMP_critical_end(void) { unlock_(&key_crit, 0); }
EXPORT void GOMP_critical_name_start(void** p) { lock_(p, 0); }
EXPORT void GOMP_critical_name_end(void** p) { unlock_(p, 0); }
EXPORT void GOMP_atomic_start(void) { lock_(&key_atomic, 0); }
EXPORT void GOMP_atomic_end(void) { unlock_(&key_atomic, 0); }
EXPORT void GOMP_ordered_start(void) { lock_(&key_atomic, 0); }
EXPORT void GOMP_ordered_end(void) { unlock_(&key_atomic, 0); }
EXPORT void omp_init_lock(void* p) { lock_of(p)->held = 0; }
EXPORT void omp_destroy_lock(void* p) { (void)p; }
EXPORT void omp_set_lock(void* p) { lock_(p, 0); }
EXPORT void omp_unset_lock(void* p) { unlock_(p, 0); }
EXPORT int omp_test_lock(void* p)
{
    if (lock_of(p)->held) return 0;
    lock_(p, 0);
    return 1;
}
EXPORT void omp_init_nest_lock(void* p) { lock_of(p)->held = 0; }
EXPORT void omp_destroy_nest_lock(void* p) { (void)p; }
EXPORT void omp_set_nest_lock(void* p) { lock_(p, 1); }
EXPORT void omp_unset_nest_lock(void* p) { unlock_(p, 1); }
/* std::mutex and friends */
EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (in_region && T[me].in_team) lock_(m, 1);
    return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (in_region && T[me].in_team) {
        struct slock* l = lock_of(m);
        if (l->held && l->owner != me) return EBUSY;
        lock_(m, 1);
    }
    return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (in_region && T[me].in_team) unlock_(m, 1);
    return 0;
}

EXPORT _Bool GOMP_single_start(void)
{
    int f;
    ws_enter(&f);
    return f;
}
EXPORT void* GOMP_single_copy_start(void)
{
    int f;
    struct ws* w = ws_enter(&f);
    if (f) return NULL;
    barrier();
    w = ws_cur();
    return w->copy;
}
EXPORT void GOMP_single_copy_end(void* d)
{
    ws_cur()->copy = d;
    barrier();
}
EXPORT unsigned GOMP_sections_next(void)
{
    yield_point();
    struct ws* w = ws_cur();
    return w->section < w->nsection ? ++w->section : 0;
}
EXPORT unsigned GOMP_sections_start(unsigned n)
{
    int f;
    struct ws* w = ws_enter(&f);
    if (f) w->nsection = n;
    return GOMP_sections_next();
}
static void psec_fn(void* p)
{
    struct ploop* q = p;
    int f;
    struct ws* w = ws_enter(&f);
    if (f) w->nsection = q->s;
    q->fn(q->data);
}
EXPORT void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned c, unsigned fl)
{
    struct ploop q = {fn, d, c, 0, 0, 0, 0};
    GOMP_parallel(psec_fn, &q, nt, fl);
}
EXPORT void GOMP_sections_end(void) { barrier(); }
EXPORT void GOMP_sections_end_nowait(void) {}
EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al,
                      _Bool ifc, unsigned fl, void** dep, int prio, void* detach)
{
    (void)ifc; (void)fl; (void)dep; (void)prio; (void)detach;
    if (cpy) {
        char buf[sz + al];
        char* a = (char*)(((u64)buf + al - 1) & ~(u64)(al - 1));
        cpy(a, data);
        fn(a);
    } else
        fn(data);
}
EXPORT void GOMP_taskwait(void) {}
EXPORT void GOMP_taskyield(void) { yield_point(); }
EXPORT void GOMP_taskgroup_start(void) {}
EXPORT void GOMP_taskgroup_end(void) {}

EXPORT int omp_get_thread_num(void) { return T[me].nest ? 0 : (in_region ? me : 0); }
EXPORT int omp_get_num_threads(void) { return in_region && !T[me].nest ? team.n : 1; }
EXPORT int omp_get_max_threads(void) { return cf.threads; }
EXPORT int omp_get_num_procs(void) { return cf.threads; }
EXPORT int omp_in_parallel(void) { return in_region && team.n > 1; }
EXPORT int omp_get_level(void) { return in_region; }
EXPORT int omp_get_dynamic(void) { return 0; }
EXPORT void omp_set_dynamic(int v) { (void)v; }
EXPORT void omp_set_num_threads(int n)
{
    if (n >= 1 && n < cf.threads) cf.threads = n;
}
EXPORT int omp_get_nested(void) { return 0; }
EXPORT void omp_set_nested(int v) { (void)v; }
EXPORT int omp_get_thread_limit(void) { return cf.threads; }

/* ------------------------------------------------- Lua states as shared data */
typedef struct lua_State lua_State;
#define LUAW(ret, name, decl, call)                              \
    EXPORT ret name decl                                         \
    {                                                            \
        static ret(*f) decl;                                     \
        if (!f) f = (ret(*) decl)dlsym(RTLD_NEXT, #name);        \
        acc(L, 8, 1, RA);                                        \
        return f call;                                           \
    }
#define LUAV(name, decl, call)                                   \
    EXPORT void name decl                                        \
    {                                                            \
        static void(*f) decl;                                    \
        if (!f) f = (void(*) decl)dlsym(RTLD_NEXT, #name);       \
        acc(L, 8, 1, RA);                                        \
        f call;                                                  \
        yield_point();                                           \
    }
LUAV(lua_pushnumber, (lua_State * L, double n), (L, n))
LUAV(lua_setglobal, (lua_State * L, const char* s), (L, s))
LUAV(lua_getglobal, (lua_State * L, const char* s), (L, s))
LUAW(int, lua_pcallk, (lua_State * L, int a, int b, int c, int d, void* k), (L, a, b, c, d, k))
LUAW(double, lua_tonumberx, (lua_State * L, int i, int* n), (L, i, n))
LUAV(lua_settop, (lua_State * L, int i), (L, i))

/* ----------------------------------------------------------------- I/O seam */
#define NFD 1024
static struct {
    char name[120];
    u8 on; /* 1 file, 2 stdout, 3 memfd */
} fd_[NFD];
static char cwd_[512];
static size_t cwdlen;

static const char* track(const char* p)
{
    if (!cf.on || !p) return NULL;
    if (p[0] != '/') return p;
    if (cwdlen && !sncmp(p, cwd_, cwdlen) && p[cwdlen] == '/') return p + cwdlen + 1;
    return NULL;
}
static void fd_set_(int fd, const char* name, int on)
{
    if (fd < 0 || fd >= NFD) return;
    size_t n = slen(name);
    if (n > 119) {
        name += n - 119;
        n = 119;
    }
    raw_copy(fd_[fd].name, name, n);
    fd_[fd].name[n] = 0;
    fd_[fd].on = on;
}
static void die_now(void)
{
    CNT(C_KILL);
    long pid = SYS(SYS_getpid);
    SYS(SYS_kill, pid, SIGKILL);
    for (;;) {}
}
static int mutating(char k) { return k == 'C' || k == 'W' || k == 'T' || k == 'N' || k == 'U' || k == 'M'; }
static void clk_op(const char* name);
static void tr_io(char kind, const char* name, long off, long len)
{
    if (cf.clkop[0] && mutating(kind)) clk_op(name);
    if (!cf.trace) return;
    char k[3] = {kind, ' ', 0};
    tr_s(k);
    tr_s(name);
    tr_s(" ");
    tr_d(off);
    tr_s(" ");
    tr_d(len);
    tr_s("\n");
}
/* decide on one operation.  Returns 0 = go on, <0 = -errno, or sets *len for a
 * short transfer; *post is set when the process dies after the operation. */
struct verdict {
    int err;
    int kill_after;
    int eof;
    long flip;
};
static int errc(char k)
{
    switch (k) {
    case 'R': return C_FERR_READ;
    case 'W': return C_FERR_WRITE;
    case 'O': case 'C': return C_FERR_OPEN;
    case 'X': return C_FERR_CLOSE;
    case 'T': return C_FERR_TRUNC;
    case 'N': return C_FERR_RENAME;
    case 'M': return C_FERR_MKDIR;
    }
    return C_FERR_OTHER;
}
static struct verdict io_op(char kind, const char* name, long off, size_t* len, int on)
{
    struct verdict v = {0, 0, 0, -1};
    tr_io(kind, name, off, len ? (long)*len : 0);
    if (mutating(kind) && on == 1) {
        u64 n = ++lg->c[C_MUT];
        if (cf.kill_n && n == cf.kill_n) {
            if (kind == 'W' && len) {
                size_t k = *len * (u64)cf.kill_frac / 1000;
                if (k == 0) die_now();
                if (k < *len) CNT(C_TORN);
                *len = k;
                v.kill_after = 1;
            } else if (cf.kill_frac >= 500)
                v.kill_after = 1;
            else
                die_now();
        }
    }
    for (int i = 0; i < nrule; i++) {
        struct rule* r = &rules[i];
        if (r->kind != kind || (r->path[0] && !sfind(name, r->path))) continue;
        r->seen++;
        if (!(r->seen == r->n || (r->sticky && r->seen > r->n))) continue;
        r->fired = 1;
        CNT(C_NFAULT);
        if (r->act == 'e') {
            CNT(errc(kind));
            v.err = r->arg;
            return v;
        }
        if (r->act == 'z') {
            CNT(C_FEOF);
            v.eof = 1;
        }
        if (r->act == 'f') {
            CNT(C_FLIP);
            v.flip = r->arg;
        }
        if (r->act == 's' && len && *len > 1) {
            CNT(kind == 'R' ? C_FSHORT_READ : C_FSHORT_WRITE);
            size_t k = *len * (u64)r->arg / 1000;
            if (k < 1) k = 1;
            *len = k;
        }
        if (r->act == 'k') die_now();
    }
    if (cf.shortio && len && *len > 1 && (kind == 'R' || kind == 'W')) {
        u64 x = rnd(cf.seed, 11, lg->c[C_READ] * 2 + lg->c[C_WRITE] * 2 + (kind == 'R'));
        if ((int)(x % 1000) < cf.shortio) {
            CNT(kind == 'R' ? C_FSHORT_READ : C_FSHORT_WRITE);
            *len = 1 + (x >> 20) % *len;
        }
    }
    return v;
}
static int full_check(int fd, const char* name, long off, size_t* len)
{
    if (!cf.full_on || (cf.full_path[0] && !sfind(name, cf.full_path))) return 0;
    struct stat st;
    raw_set(&st, 0, sizeof st);
    SYS(SYS_fstat, fd, &st);
    u64 size = S_ISREG(st.st_mode) ? st.st_size : 0;
    u64 end = (off < 0 ? size : (u64)off) + *len;
    u64 grow = end > size ? end - size : 0;
    if (!S_ISREG(st.st_mode)) grow = *len;
    if (grow <= cf.full_left) {
        cf.full_left -= grow;
        return 0;
    }
    CNT(C_FENOSPC);
    CNT(C_NFAULT);
    if (cf.full_heal && lg->c[C_FENOSPC] >= cf.full_heal) {
        cf.full_on = 0;
        CNT(C_HEAL);
    }
    u64 can = *len - (grow - cf.full_left);
    if (grow > *len) can = 0;
    cf.full_left = 0;
    if (can > 0 && can < *len) {
        *len = can;
        return 0;
    }
    return ENOSPC;
}
static int do_open(int dfd, const char* path, int fl, mode_t mode)
{
    const char* nm = dfd == AT_FDCWD || (path && path[0] == '/') ? track(path) : NULL;
    struct verdict v = {0, 0, 0, -1};
    if (nm) {
        CNT(C_OPEN);
        v = io_op((fl & (O_CREAT | O_TRUNC)) ? 'C' : 'O', nm, fl, NULL, 1);
        if (v.err) {
            errno = v.err;
            return -1;
        }
    }
    long r = ret_errno(SYS(SYS_openat, dfd, path, fl, mode));
    if (v.kill_after) die_now();
    if (nm && r >= 0) fd_set_(r, nm, 1);
    else if (r >= 0 && r < NFD) fd_[r].on = 0;
    return r;
}
#define VAMODE                            \
    mode_t m = 0;                         \
    if (fl & (O_CREAT | O_TMPFILE)) {     \
        va_list ap;                       \
        va_start(ap, fl);                 \
        m = va_arg(ap, int);              \
        va_end(ap);                       \
    }
EXPORT int open(const char* p, int fl, ...) { VAMODE return do_open(AT_FDCWD, p, fl, m); }
EXPORT int open64(const char* p, int fl, ...) { VAMODE return do_open(AT_FDCWD, p, fl, m); }
EXPORT int openat(int d, const char* p, int fl, ...) { VAMODE return do_open(d, p, fl, m); }
EXPORT int openat64(int d, const char* p, int fl, ...) { VAMODE return do_open(d, p, fl, m); }
EXPORT int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char* p, mode_t m) { return creat(p, m); }
EXPORT int __open_2(const char* p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
EXPORT int __open64_2(const char* p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }

static ssize_t do_rw(int w, int fd, void* buf, size_t n, off_t off)
{
    int on = fd >= 0 && fd < NFD ? fd_[fd].on : 0;
    struct verdict v = {0, 0, 0, -1};
    if (on && n) {
        CNT(w ? C_WRITE : C_READ);
        long o = off;
        if (o < 0 && w && cf.full_on) o = SYS(SYS_lseek, fd, 0, SEEK_CUR);
        if (o < 0) o = -1;
        v = io_op(w ? (on == 3 ? 'Q' : 'W') : 'R', fd_[fd].name, off, &n, on);
        if (v.err) {
            errno = v.err;
            return -1;
        }
        if (v.eof) return 0;
        if (w) {
            int e = full_check(fd, fd_[fd].name, o, &n);
            if (e) {
                errno = e;
                return -1;
            }
        }
    }
    long r;
    if (off >= 0)
        r = ret_errno(SYS(w ? SYS_pwrite64 : SYS_pread64, fd, buf, n, off));
    else
        r = ret_errno(SYS(w ? SYS_write : SYS_read, fd, buf, n));
    if (v.kill_after) die_now();
    if (on && r > 0) {
        lg->c[w ? C_WBYTES : C_RBYTES] += r;
        if (!w && v.flip >= 0) ((u8*)buf)[(r - 1) * (v.flip % 1000) / 1000] ^= 1 << (v.flip / 1000 % 8);
    }
    return r;
}
EXPORT ssize_t read(int fd, void* b, size_t n) { return do_rw(0, fd, b, n, -1); }
EXPORT ssize_t __read_chk(int fd, void* b, size_t n, size_t l) { (void)l; return do_rw(0, fd, b, n, -1); }
EXPORT ssize_t write(int fd, const void* b, size_t n) { return do_rw(1, fd, (void*)b, n, -1); }
EXPORT ssize_t pread(int fd, void* b, size_t n, off_t o) { return do_rw(0, fd, b, n, o); }
EXPORT ssize_t pread64(int fd, void* b, size_t n, off_t o) { return do_rw(0, fd, b, n, o); }
EXPORT ssize_t __pread_chk(int fd, void* b, size_t n, off_t o, size_t l) { (void)l; return do_rw(0, fd, b, n, o); }
EXPORT ssize_t __pread64_chk(int fd, void* b, size_t n, off_t o, size_t l) { (void)l; return do_rw(0, fd, b, n, o); }
EXPORT ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return do_rw(1, fd, (void*)b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return do_rw(1, fd, (void*)b, n, o); }
static ssize_t do_v(int w, int fd, const struct iovec* v, int k)
{
    ssize_t tot = 0;
    for (int i = 0; i < k; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = do_rw(w, fd, v[i].iov_base, v[i].iov_len, -1);
        if (r < 0) return tot ? tot : r;
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}
EXPORT ssize_t readv(int fd, const struct iovec* v, int k) { return do_v(0, fd, v, k); }
EXPORT ssize_t writev(int fd, const struct iovec* v, int k) { return do_v(1, fd, v, k); }
EXPORT int close(int fd)
{
    int on = fd >= 0 && fd < NFD ? fd_[fd].on : 0;
    struct verdict v = {0, 0, 0, -1};
    if (on == 1) {
        CNT(C_CLOSE);
        v = io_op('X', fd_[fd].name, 0, NULL, on);
    }
    if (on) fd_[fd].on = 0;
    long r = ret_errno(SYS(SYS_close, fd));
    if (v.err) {
        errno = v.err;
        return -1;
    }
    return r;
}
static int do_trunc(int fd, off_t n)
{
    int on = fd >= 0 && fd < NFD ? fd_[fd].on : 0;
    struct verdict v = {0, 0, 0, -1};
    if (on) {
        CNT(C_TRUNC);
        v = io_op('T', fd_[fd].name, n, NULL, on);
        if (v.err) {
            errno = v.err;
            return -1;
        }
    }
    long r = ret_errno(SYS(SYS_ftruncate, fd, n));
    if (v.kill_after) die_now();
    return r;
}
EXPORT int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
EXPORT int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }
static int do_sync(int nr, int fd)
{
    int on = fd >= 0 && fd < NFD ? fd_[fd].on : 0;
    if (on) {
        CNT(C_SYNC);
        struct verdict v = io_op('S', fd_[fd].name, 0, NULL, on);
        if (v.err) {
            errno = v.err;
            return -1;
        }
    }
    return ret_errno(SYS(nr, fd));
}
EXPORT int fsync(int fd) { return do_sync(SYS_fsync, fd); }
EXPORT int fdatasync(int fd) { return do_sync(SYS_fdatasync, fd); }
static int do_path(char kind, int cnt, const char* a, long (*op)(const char*, const char*, long), const char* b, long m)
{
    const char* nm = track(a);
    struct verdict v = {0, 0, 0, -1};
    if (nm) {
        CNT(cnt);
        v = io_op(kind, nm, 0, NULL, 1);
        if (v.err) {
            errno = v.err;
            return -1;
        }
    }
    long r = ret_errno(op(a, b, m));
    if (v.kill_after) die_now();
    return r;
}
static long op_rename(const char* a, const char* b, long m) { (void)m; return SYS(SYS_rename, a, b); }
static long op_unlink(const char* a, const char* b, long m) { (void)b; (void)m; return SYS(SYS_unlink, a); }
static long op_rmdir(const char* a, const char* b, long m) { (void)b; (void)m; return SYS(SYS_rmdir, a); }
static long op_mkdir(const char* a, const char* b, long m) { (void)b; return SYS(SYS_mkdir, a, m); }
EXPORT int rename(const char* a, const char* b) { return do_path('N', C_RENAME, a, op_rename, b, 0); }
EXPORT int renameat(int d, const char* a, int e, const char* b)
{
    if (d == AT_FDCWD && e == AT_FDCWD) return rename(a, b);
    return ret_errno(SYS(SYS_renameat, d, a, e, b));
}
EXPORT int unlink(const char* a) { return do_path('U', C_UNLINK, a, op_unlink, NULL, 0); }
EXPORT int remove(const char* a)
{
    struct stat st;
    if (SYS(SYS_stat, a, &st) == 0 && S_ISDIR(st.st_mode)) return do_path('U', C_UNLINK, a, op_rmdir, NULL, 0);
    return unlink(a);
}
EXPORT int mkdir(const char* a, mode_t m) { return do_path('M', C_MKDIR, a, op_mkdir, NULL, m); }

EXPORT long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_memfd_create && cf.on) {
        CNT(C_MEMFD);
        struct verdict v = io_op('Y', (const char*)a, 0, NULL, 3);
        if (v.err) {
            errno = v.err;
            return -1;
        }
        long r = ret_errno(sys6(n, a, b, c, d, e, f));
        if (r >= 0) fd_set_(r, (const char*)a, 3);
        return r;
    }
    return ret_errno(sys6(n, a, b, c, d, e, f));
}
EXPORT int memfd_create(const char* name, unsigned fl) { return syscall(SYS_memfd_create, name, fl); }
EXPORT int dup2(int a, int b)
{
    if (cf.on) {
        struct verdict v = io_op('D', a >= 0 && a < NFD && fd_[a].on ? fd_[a].name : "", 0, NULL, 3);
        if (v.err) {
            errno = v.err;
            return -1;
        }
    }
    long r = ret_errno(SYS(SYS_dup2, a, b));
    if (r >= 0 && a >= 0 && a < NFD && b < NFD) fd_[b] = fd_[a];
    return r;
}
static int do_exec(const char* f, char** av)
{
    CNT(C_EXEC);
    if (cf.on) {
        struct verdict v = io_op('E', f, 0, NULL, 3);
        if (v.err) {
            CNT(C_FEXEC);
            errno = v.err;
            return -1;
        }
    }
    return execvp(f, av);
}
EXPORT int execlp(const char* f, const char* a0, ...)
{
    char* av[64];
    int n = 0;
    va_list ap;
    va_start(ap, a0);
    av[n++] = (char*)a0;
    while (n < 63 && (av[n] = va_arg(ap, char*))) n++;
    av[n] = NULL;
    va_end(ap);
    return do_exec(f, av);
}

/* stdio on top of the seam */
struct ck {
    int fd;
    int used;
    FILE* f;
};
static struct ck cks[64];
static ssize_t ck_read(void* c, char* b, size_t n) { return read(((struct ck*)c)->fd, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n)
{
    size_t done = 0;
    while (done < n) {
        ssize_t r = write(((struct ck*)c)->fd, b + done, n - done);
        if (r <= 0) return done; /* glibc: a short count is an error */
        done += r;
    }
    return done;
}
static int ck_seek(void* c, off64_t* o, int w)
{
    long r = ret_errno(SYS(SYS_lseek, ((struct ck*)c)->fd, *o, w));
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void* c)
{
    struct ck* k = c;
    k->used = 0;
    return close(k->fd);
}
static FILE* ck_open(int fd, const char* mode)
{
    for (int i = 0; i < 64; i++)
        if (!cks[i].used) {
            cks[i].used = 1;
            cks[i].fd = fd;
            cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
            cks[i].f = fopencookie(&cks[i], mode, io);
            if (!cks[i].f) cks[i].used = 0;
            return cks[i].f;
        }
    errno = EMFILE;
    return NULL;
}
static FILE* do_fopen(const char* p, const char* mode, void* ra)
{
    static FILE* (*real)(const char*, const char*);
    if (!real) real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    if (!track(p)) return real(p, mode);
    Dl_info di;
    int cxx = dladdr(ra, &di) && di.dli_fname && sfind(di.dli_fname, "libstdc++");
    int fl = 0;
    const char* plus = sfind(mode, "+");
    switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return NULL;
    }
    int fd = do_open(AT_FDCWD, p, fl, 0666);
    if (fd < 0) return NULL;
    if (cxx) { /* std::filebuf reads the descriptor itself */
        char nm[120];
        raw_copy(nm, fd_[fd].name, 120);
        FILE* f = fdopen(fd, mode);
        return f;
    }
    FILE* f = ck_open(fd, mode);
    if (!f) close(fd);
    else if (mode[0] == 'a') SYS(SYS_lseek, fd, 0, SEEK_END);
    return f;
}
EXPORT FILE* fopen(const char* p, const char* m) { return do_fopen(p, m, RA); }
EXPORT FILE* fopen64(const char* p, const char* m) { return do_fopen(p, m, RA); }
EXPORT int fclose(FILE* f)
{
    static int (*real)(FILE*);
    if (!real) real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    int fd = -1;
    for (int i = 0; i < 64; i++)
        if (cks[i].used && cks[i].f == f) return real(f);
    static int (*rfn)(FILE*);
    if (!rfn) rfn = (int (*)(FILE*))dlsym(RTLD_NEXT, "fileno");
    if (f) fd = rfn(f);
    struct verdict v = {0, 0, 0, -1};
    if (fd >= 0 && fd < NFD && fd_[fd].on == 1) {
        CNT(C_CLOSE);
        v = io_op('X', fd_[fd].name, 0, NULL, 1);
        fd_[fd].on = 0;
    }
    int r = real(f);
    if (v.err) {
        errno = v.err;
        return EOF;
    }
    return r;
}
EXPORT int fileno(FILE* f)
{
    static int (*real)(FILE*);
    if (!real) real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fileno");
    for (int i = 0; i < 64; i++)
        if (cks[i].used && cks[i].f == f) return cks[i].fd;
    return real(f);
}

/* -------------------------------------------------------------------- clock */
static u64 mono_ns, wall_ns, nclk;
static void clk_tick(void)
{
    u64 n = ++nclk;
    CNT(C_CLOCK);
    u64 d = 1000000; /* 1 ms */
    if (cf.clk) {
        u64 x = rnd(cf.clkseed, 21, n);
        static const u64 ms[] = {0, 0, 1, 1, 10, 500, 1000, 3000, 7000, 19000, 20000, 21000, 22000, 60000, 3600000, 86400000};
        u64 lim = cf.clk == 2 ? 16 : cf.clk >= 3 ? 9 : 5;
        d = ms[x % lim] * 1000000ull + (x >> 40) % 999999;
        if ((cf.clk == 2 || cf.clk == 4) && (x >> 8) % 5 == 0) { /* the wall clock jumps */
            CNT(C_CLKJUMP);
            wall_ns = (u64)((x >> 12) % 4000000000ull) * 1000000000ull;
        }
    }
    mono_ns += d;
    wall_ns += d;
    lg->c[C_SIMNS] += d;
}
/* time also passes at operations on files of a given name */
static void clk_op(const char* name)
{
    if (!sfind(name, cf.clkop)) return;
    clk_tick();
    if (!cf.trace) return;
    tr_s("K op 0 ");
    tr_d(mono_ns / 1000000);
    tr_s("\n");
}
EXPORT int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!cf.on) return ret_errno(SYS(SYS_clock_gettime, id, ts));
    clk_tick();
    u64 v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wall_ns : (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) ? nclk * 1000 : mono_ns;
    ts->tv_sec = v / 1000000000ull;
    ts->tv_nsec = v % 1000000000ull;
    if (cf.trace) {
        tr_s("K ");
        tr_s(id == CLOCK_REALTIME ? "wall " : "mono ");
        tr_d(v / 1000000);
        tr_s(" ");
        tr_d(mono_ns / 1000000);
        tr_s("\n");
    }
    return 0;
}
EXPORT time_t time(time_t* t)
{
    time_t r;
    if (!cf.on) {
        struct timespec ts;
        SYS(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        r = ts.tv_sec;
    } else {
        clk_tick();
        r = wall_ns / 1000000000ull;
    }
    if (t) *t = r;
    return r;
}
EXPORT int gettimeofday(struct timeval* tv, void* tz)
{
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXPORT double omp_get_wtime(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
/* time spent computing is not time that passes */
EXPORT clock_t clock(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
EXPORT int timespec_get(struct timespec* ts, int base)
{
    clock_gettime(CLOCK_REALTIME, ts);
    return base;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec* t, struct timespec* rem)
{
    if (!cf.on) return -SYS(SYS_clock_nanosleep, id, flags, t, rem);
    u64 d = t->tv_sec * 1000000000ull + t->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        u64 now = id == CLOCK_REALTIME ? wall_ns : mono_ns;
        d = d > now ? d - now : 0;
    }
    mono_ns += d;
    wall_ns += d;
    lg->c[C_SIMNS] += d;
    return 0;
}
EXPORT int nanosleep(const struct timespec* t, struct timespec* rem)
{
    if (!cf.on) return ret_errno(SYS(SYS_nanosleep, t, rem));
    return clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem);
}
EXPORT int usleep(useconds_t us)
{
    struct timespec t = {us / 1000000, us % 1000000 * 1000};
    return nanosleep(&t, NULL);
}
EXPORT unsigned sleep(unsigned sec)
{
    struct timespec t = {sec, 0};
    nanosleep(&t, NULL);
    return 0;
}
/* numbers that differ from run to run */
EXPORT ssize_t getrandom(void* b, size_t n, unsigned flags)
{
    if (!cf.on) return ret_errno(SYS(SYS_getrandom, b, n, flags));
    static u64 k;
    for (size_t i = 0; i < n; i++) ((u8*)b)[i] = rnd(cf.heapseed, 77, k++);
    return n;
}
EXPORT int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
EXPORT pid_t getpid(void) { return cf.on ? 2 + (pid_t)(rnd(cf.heapseed, 78, 0) % 30000) : (pid_t)SYS(SYS_getpid); }

EXPORT double omp_get_wtick(void) { return 1e-9; }

/* --------------------------------------------------------------------- init */
static void parse(const char* s)
{
    while (*s) {
        char k[24];
        int i = 0;
        while (*s && *s != '=' && i < 23) k[i++] = *s++;
        k[i] = 0;
        if (*s == '=') s++;
        char v[256];
        i = 0;
        while (*s && *s != ';' && i < 255) v[i++] = *s++;
        v[i] = 0;
        if (*s == ';') s++;
#define K(n) (slen(k) == sizeof(n) - 1 && !sncmp(k, n, sizeof(n)))
        if (K("seed")) cf.seed = num(v);
        else if (K("threads")) cf.threads = num(v) > MAXT ? MAXT : num(v) ? num(v) : 1;
        else if (K("sched")) cf.sched = num(v);
        else if (K("prob")) cf.prob = num(v);
        else if (K("chunk")) cf.chunk = num(v);
        else if (K("race")) cf.race = num(v);
        else if (K("teamvar")) cf.teamvar = num(v);
        else if (K("trace")) cf.trace = num(v);
        else if (K("pctd")) cf.pct_d = num(v);
        else if (K("pctlen")) cf.pct_len = num(v);
        else if (K("heapseed")) cf.heapseed = num(v);
        else if (K("heapfill")) cf.heapfill = num(v);
        else if (K("mallocfail")) cf.mallocfail = num(v);
        else if (K("mallocsticky")) cf.mallocsticky = num(v);
        else if (K("clk")) cf.clk = num(v);
        else if (K("clkseed")) cf.clkseed = num(v);
        else if (K("clkbase")) cf.clkbase = num(v);
        else if (K("clkwall")) cf.clkwall = num(v);
        else if (K("clkop")) { size_t n = slen(v); if (n > 31) n = 31; raw_copy(cf.clkop, v, n); }
        else if (K("sites")) cf.sites = num(v);
        else if (K("kill")) cf.kill_n = num(v);
        else if (K("killfrac")) cf.kill_frac = num(v);
        else if (K("full")) { cf.full_on = 1; cf.full_left = num(v); }
        else if (K("fullheal")) cf.full_heal = num(v);
        else if (K("fullpath")) { size_t n = slen(v); if (n > 63) n = 63; raw_copy(cf.full_path, v, n); }
        else if (K("shortio")) cf.shortio = num(v);
        else if (K("maxev")) cf.maxev = num(v);
        else if (K("f") && nrule < NRULE) { /* kind:path:n[+]:act:arg */
            struct rule* r = &rules[nrule++];
            const char* p = v;
            r->kind = *p++;
            if (*p == ':') p++;
            int j = 0;
            while (*p && *p != ':' && j < 63) r->path[j++] = *p++;
            if (*p == ':') p++;
            r->n = num(p);
            while (*p && *p != ':') { if (*p == '+') r->sticky = 1; p++; }
            if (*p == ':') p++;
            r->act = *p ? *p++ : 'e';
            if (*p == ':') p++;
            r->arg = num(p);
        } else if (K("sw")) {
            long fd = SYS(SYS_openat, AT_FDCWD, v, O_RDONLY, 0);
            struct stat st;
            if (fd >= 0 && SYS(SYS_fstat, fd, &st) == 0 && st.st_size) {
                long r = SYS(SYS_mmap, 0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
                rsw = (u64*)r;
                nrsw = st.st_size / 16;
            }
            if (fd >= 0) SYS(SYS_close, fd);
        }
    }
}
static int (*real_main)(int, char**, char**);
static int g_argc;
static char **g_argv, **g_envp;
static int g_rc;
static __attribute__((noinline)) void run_main(void)
{
    __asm__ volatile(".cfi_undefined rip"); /* the unwinder stops here: an uncaught exception ends in abort() */
    g_rc = real_main(g_argc, g_argv, g_envp);
}
/* main runs on a stack at a fixed address, filled with seeded garbage */
#define STK ((char*)0x6f0000000000ull)
#define STKSZ (64ull << 20)
static int sim_main(int argc, char** argv, char** envp)
{
    g_argc = argc;
    g_argv = argv;
    g_envp = envp;
    long r = SYS(SYS_mmap, STK, STKSZ, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    make_pool();
    heap_live = 1;
    if (r != (long)STK) return real_main(argc, argv, envp);
    if (cf.heapfill) garbage(STK + STKSZ - (1 << 20), 1 << 20, 999);
    char* top = STK + STKSZ - 4096 - (cf.heapseed % 64) * 16;
    T[0].stk_hi = STK + STKSZ;
    T[0].stk_lo = STK;
    __asm__ volatile(
        "movq %%rsp, %%rbx\n\t"
        "movq %0, %%rsp\n\t"
        "call *%1\n\t"
        "movq %%rbx, %%rsp\n\t"
        :
        : "r"(top), "r"(run_main)
        : "rax", "rbx", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "memory", "cc", "xmm0", "xmm1",
          "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13",
          "xmm14", "xmm15");
    lg->c[C_EXITING] = 1 + (g_rc & 255);
    return g_rc;
}
EXPORT void exit(int rc)
{
    void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
    lg->c[C_EXITING] = 1 + (rc & 255);
    real(rc);
    __builtin_unreachable();
}
typedef int (*lsm)(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*);
EXPORT int __libc_start_main(int (*m)(int, char**, char**), int argc, char** argv, void (*i)(void),
                             void (*f)(void), void (*rf)(void), void* se)
{
    lsm real = (lsm)dlsym(RTLD_NEXT, "__libc_start_main");
    real_main = m;
    return real(cf.on ? sim_main : m, argc, argv, i, f, rf, se);
}
static int find_text(struct dl_phdr_info* i, size_t n, void* x)
{
    (void)n;
    int* first = (int*)x;
    int k = *first ? 0 : sfind(i->dlpi_name, "libvvhd") ? 1 : -1;
    *first = 0;
    for (int j = 0; k >= 0 && j < i->dlpi_phnum; j++)
        if (i->dlpi_phdr[j].p_type == PT_LOAD && (i->dlpi_phdr[j].p_flags & PF_X)) {
            text[k].lo = i->dlpi_addr + i->dlpi_phdr[j].p_vaddr;
            text[k].hi = text[k].lo + i->dlpi_phdr[j].p_memsz;
        }
    return 0;
}
__attribute__((constructor)) static void sim_init(int argc, char** argv, char** envp)
{
    (void)argc;
    (void)argv;
    const char *cfg = NULL, *lf = NULL;
    for (char** e = envp; e && *e; e++) {
        if (!sncmp(*e, "SIMCFG=", 7)) cfg = *e + 7;
        if (!sncmp(*e, "SIMLOG=", 7)) lf = *e + 7;
    }
    if (!cfg) return;
    parse(cfg);
    if (lf) {
        long fd = SYS(SYS_openat, AT_FDCWD, lf, O_RDWR, 0);
        if (fd >= 0) {
            long r = SYS(SYS_mmap, 0, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            SYS(SYS_close, fd);
            if (!(r < 0 && r > -4096)) {
                lg = (struct simlog*)r;
                lg->magic = 0x53494d4c4f47ull;
                sw_area = (u64*)((char*)r + 4096);
                tr_area = (char*)r + 4096 + SW_MAX * 16;
                tr_max = LOGSZ - 4096 - SW_MAX * 16;
            }
        }
    }
    if (cf.race) {
        long r = SYS(SYS_mmap, 0, NSHADOW * sizeof(struct cell), PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        shadow = (struct cell*)r;
    }
    if (cf.sched == 2) {
        npct = cf.pct_d > 16 ? 16 : cf.pct_d;
        for (int i = 0; i < npct; i++) pct_pts[i] = 1 + rnd(cf.seed, 8, i) % (cf.pct_len ? cf.pct_len : 100000);
    }
    mono_ns = (cf.clkbase ? cf.clkbase : 100000) * 1000000000ull;
    wall_ns = (cf.clkwall ? cf.clkwall : 1500000000ull) * 1000000000ull;
    SYS(SYS_getcwd, cwd_, sizeof cwd_);
    cwdlen = slen(cwd_);
    CNT(C_INIT);
    lg->c[C_THREADS] = cf.threads;
    if (cf.sites) {
        int first = 1;
        dl_iterate_phdr(find_text, &first);
    }
    cf.on = 1;
    fd_set_(1, "<stdout>", 2);
    stdout = ck_open(1, "w");
    T[0].state = 1;
}
