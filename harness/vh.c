#include "vh.h"
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <dirent.h>

#ifdef __cplusplus
extern "C" {
#endif

void *__real_malloc(size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__real_sbrk(intptr_t);
int __real_pthread_barrier_wait(pthread_barrier_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

static int vargc; static char **vargv;
static const char *vname = "?";
/* how many requests for memory had been refused when the program aborted */
static void onAbort(int sig)
{
    char b[40] = "\nVH-ABORT refused=", d[24]; int n = 0, l = (int) strlen(b); long v = vh_poolsRefused;
    (void) sig;
    do { d[n++] = (char) ('0' + v % 10); v /= 10; } while (v);
    while (n) b[l++] = d[--n];
    b[l++] = '\n';
    if (write(2, b, (size_t) l)) {}
}
void vh_init(int argc, char **argv) { vargc = argc; vargv = argv; vname = argv[0]; setvbuf(stdout, NULL, _IOLBF, 0); }
__attribute__((constructor(101))) static void early(void) { signal(SIGABRT, onAbort); }
const char *vh_sarg(const char *key, const char *dflt)
{
    size_t l = strlen(key); int i;
    for (i = 1; i < vargc; i++)
        if (!strncmp(vargv[i], key, l) && vargv[i][l] == '=') return vargv[i] + l + 1;
    return dflt;
}
long vh_arg(const char *key, long dflt)
{
    const char *s = vh_sarg(key, NULL);
    return s ? strtol(s, NULL, 0) : dflt;
}

/* locks that a race detector does not see (this file is never instrumented) */
typedef volatile int vlock;
static void vLock(vlock *l) { int n = 0; while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) if (++n > 100) sched_yield(); }
static void vUnlock(vlock *l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }
static vlock statLock;
#define NSTAT 96
static struct { const char *k; long v; } stats[NSTAT];
static int nstats;
static long *statOf(const char *key)
{
    int i;
    for (i = 0; i < nstats; i++) if (stats[i].k == key || !strcmp(stats[i].k, key)) return &stats[i].v;
    if (nstats == NSTAT) { static long dummy; return &dummy; }
    stats[nstats].k = key;
    return &stats[nstats++].v;
}
void vh_stat(const char *key, long add)
{
    vLock(&statLock); *statOf(key) += add; vUnlock(&statLock);
}
void vh_stat_max(const char *key, long v)
{
    long *p;
    vLock(&statLock); p = statOf(key); if (v > *p) *p = v; vUnlock(&statLock);
}

#define NDIST 6
#define DISTSZ (1u<<16)
static struct { const char *k; uint64_t *tab; long n; } dist[NDIST];
static int ndist;
void vh_distinct(const char *key, uint64_t h)
{
    int i; uint32_t j;
    if (!h) h = 1;
    vLock(&statLock);
    for (i = 0; i < ndist; i++) if (!strcmp(dist[i].k, key)) break;
    if (i == ndist) {
        if (ndist == NDIST) { vUnlock(&statLock); return; }
        dist[i].k = key; dist[i].tab = (uint64_t *) vh_calloc(DISTSZ, sizeof(uint64_t)); ndist++;
    }
    for (j = (uint32_t) h % DISTSZ; dist[i].tab[j]; j = (j + 1) % DISTSZ)
        if (dist[i].tab[j] == h) goto out;
    if (dist[i].n < (long) DISTSZ * 3 / 4) { dist[i].tab[j] = h; dist[i].n++; }
out:
    vUnlock(&statLock);
}

#define NSAMP 4
static char samples[NSAMP][200]; static int nsamples;
void vh_sample(const char *fmt, ...)
{
    va_list ap;
    vLock(&statLock);
    if (nsamples < NSAMP) {
        va_start(ap, fmt); vsnprintf(samples[nsamples++], sizeof samples[0], fmt, ap); va_end(ap);
    }
    vUnlock(&statLock);
}

static void printJson(const char *s)
{
    for (; *s; s++) if (*s == '"' || *s == '\\' || (unsigned char) *s < 32) putchar(' '); else putchar(*s);
}
void vh_done(void)
{
    int i;
    printf("VH-STATS {");
    for (i = 0; i < nstats; i++) printf("%s\"%s\": %ld", i ? ", " : "", stats[i].k, stats[i].v);
    printf("%s\"pools\": %ld, \"barriers\": %ld, \"refused\": %ld, \"requests\": %ld", i ? ", " : "", vh_pools, vh_barriers, vh_poolsRefused, vh_poolRequests);
    for (i = 0; i < ndist; i++) printf(", \"distinct_%s\": %ld", dist[i].k, dist[i].n);
    printf("}\n");
    for (i = 0; i < ndist; i++) {
        uint32_t j; long n = 0;
        printf("VH-DIST %s", dist[i].k);
        for (j = 0; j < DISTSZ && n < 4000; j++) if (dist[i].tab[j]) { printf(" %lx", (unsigned long) (dist[i].tab[j] & 0xffffffffffUL)); n++; }
        printf("\n");
    }
    for (i = 0; i < nsamples; i++) { printf("VH-SAMPLE "); printJson(samples[i]); printf("\n"); }
    fflush(stdout);
}

void vh_viol(const char *key, const char *fmt, ...)
{
    va_list ap; int i;
    fflush(stdout);
    fprintf(stderr, "VH-VIOLATION %s: ", key);
    va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
    fprintf(stderr, "\nVH-CMD");
    for (i = 0; i < vargc; i++) fprintf(stderr, " %s", vargv[i]);
    fprintf(stderr, "\n");
    _exit(10);
}
void vh_bug(const char *fmt, ...)
{
    va_list ap;
    fprintf(stderr, "VH-BUG ");
    va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
    fprintf(stderr, "\n");
    _exit(11);
}

/* ---- memory ---- */
volatile long vh_barrierCap, vh_pools, vh_poolsRefused, vh_barriers, vh_poolRequests;
int vh_junk = 1;
long vh_failFrom = -1, vh_failTo = -1; int vh_failPct, vh_failAll;
vh_rng vh_failRng = { 77 };
long vh_failThread; int vh_delayPct;

void *vh_malloc(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) vh_bug("out of memory"); return p; }
void *vh_calloc(size_t n, size_t m) { void *p = vh_malloc(n * m); memset(p, 0, n * m); return p; }
void *vh_realloc(void *p, size_t n) { p = realloc(p, n); if (!p) vh_bug("out of memory"); return p; }
void vh_free(void *p) { free(p); }

#define MAXPOOL 65536
static struct { char *a; size_t n; } pools[MAXPOOL];
static void addPool(void *a, size_t n, long ct)
{
    long i = __atomic_fetch_add(&vh_pools, ct, __ATOMIC_RELAXED);
    if (i < MAXPOOL) { pools[i].a = (char *) a; pools[i].n = n; }
    /* no workload has anywhere near this much live */
    if ((i + ct) * (double) vh_poolBytes > (vh_poolBytes >= (size_t) 1 << 22 ? 4e9 : 1e9))
        vh_viol("runaway", "%ld pools of %lu bytes", i + ct, (unsigned long) vh_poolBytes);
}
char *vh_poolEnd(const void *p)
{
    long i;
    for (i = 0; i < vh_pools && i < MAXPOOL; i++)
        if (pools[i].a && (char *) p >= pools[i].a && (char *) p < pools[i].a + pools[i].n) return pools[i].a + pools[i].n;
    return NULL;
}
int vh_inPool(const void *p) { return !!vh_poolEnd(p); }

static vlock failLock;
/* VH_FAIL=from:to:pct:all:seed, read here because types may be constructed
 * before main */
static int failInit;
static void readFail(void)
{
    const char *e = getenv("VH_FAIL"); long f, t, p, a, s;
    if (e && sscanf(e, "%ld:%ld:%ld:%ld:%ld", &f, &t, &p, &a, &s) == 5) {
        vh_failFrom = f; vh_failTo = t; vh_failPct = (int) p; vh_failAll = (int) a; vh_failRng.s = (uint64_t) s;
    }
    __atomic_store_n(&failInit, 1, __ATOMIC_RELEASE);
}
/* should this pool request be refused? */
static int refuse(void)
{
    long i; int r;
    if (!__atomic_load_n(&failInit, __ATOMIC_ACQUIRE)) { vLock(&failLock); if (!failInit) readFail(); vUnlock(&failLock); }
    i = __atomic_fetch_add(&vh_poolRequests, 1, __ATOMIC_RELAXED);
    if (vh_failFrom < 0 && !vh_failPct) return 0;
    vLock(&failLock);
    r = (i >= vh_failFrom && i < vh_failTo && vh_failFrom >= 0) || (vh_failPct && vh_pct(&vh_failRng, vh_failPct));
    vUnlock(&failLock);
    if (r) __atomic_fetch_add(&vh_poolsRefused, 1, __ATOMIC_RELAXED);
    return r;
}
static void fillJunk(void *p, size_t n)
{
    size_t i; uint64_t *w = (uint64_t *) p;
    static vh_rng r = { 4242 };
    if (!vh_junk) return;
    if (vh_junk == 2) { memset(p, 0, n); return; }
    for (i = 0; i < n / sizeof(uint64_t); i++) w[i] = vh_next(&r) | 0x8000000000000000ULL;
}

int __wrap_posix_memalign(void **ret, size_t al, size_t n)
{
    int r;
    if (n != vh_poolBytes) return __real_posix_memalign(ret, al, n);
    if (refuse()) return ENOMEM;
#if defined(VH_GUARD)
    /* surround the pool with inaccessible memory */
    {
        size_t page = 4096, tot;
        char *m, *a;
        if (n < page) page = n;
        tot = al + n + 2 * 4096;
        m = (char *) __real_mmap(NULL, tot, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        if (m == (char *) MAP_FAILED) return ENOMEM;
        a = (char *) (((uintptr_t) m + 4096 + al - 1) / al * al);
        if (mprotect(a, n, PROT_READ|PROT_WRITE)) return ENOMEM;
        *ret = a; r = 0;
    }
#else
    r = __real_posix_memalign(ret, al, n);
#endif
    if (!r) { fillJunk(*ret, n); addPool(*ret, n, 1); }
    return r;
}

void *__wrap_malloc(size_t n)
{
    void *p;
    if (vh_poolBytes && n >= vh_poolBytes && n % vh_poolBytes == 0) {
        if (refuse()) { errno = ENOMEM; return NULL; }
        p = __real_malloc(n);
        if (p) {
            long k = (long) (n / vh_poolBytes);
            fillJunk(p, n);
            addPool(p, n, k > 1 ? k - 1 : 1);
        }
        return p;
    }
    if (!__atomic_load_n(&failInit, __ATOMIC_ACQUIRE)) { vLock(&failLock); if (!failInit) readFail(); vUnlock(&failLock); }
    if (vh_failAll && refuse()) { errno = ENOMEM; return NULL; }
    p = __real_malloc(n);
    /* never hand out accidentally zeroed memory */
    if (p && n < 65536 && vh_junk) memset(p, 0xA5, n);
    return p;
}

void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o)
{
    void *p;
    if (n != 2 * vh_poolBytes) return __real_mmap(a, n, prot, fl, fd, o);
    if (refuse()) { errno = ENOMEM; return MAP_FAILED; }
    p = __real_mmap(a, n, prot, fl, fd, o);
    if (p != MAP_FAILED) { fillJunk(p, n); addPool(p, n, 1); }
    return p;
}

void *__wrap_sbrk(intptr_t n)
{
    void *p;
    if (n <= 0) return __real_sbrk(n);
    if (refuse()) { errno = ENOMEM; return (void *) -1; }
    p = __real_sbrk(n);
    if (p != (void *) -1 && (size_t) n == vh_poolBytes) { fillJunk(p, n); addPool(p, n, 1); }
    return p;
}

/* ---- threads ---- */
static __thread vh_rng delayRng;
static void delay(void)
{
    uint64_t k;
    if (!vh_delayPct) return;
    if (!delayRng.s) delayRng.s = (uint64_t) (uintptr_t) &delayRng ^ (uint64_t) vh_arg("seed", 1) * 7919;
    k = vh_next(&delayRng);
    if (k % 100 >= (uint64_t) vh_delayPct) return;
    switch ((k >> 8) % 4) {
        case 0: sched_yield(); break;
        case 1: { struct timespec ts = { 0, (long) ((k >> 16) % 200000) }; nanosleep(&ts, NULL); break; }
        case 2: { volatile int i, n = (int) ((k >> 16) % 3000); for (i = 0; i < n; i++); break; }
        default: sched_yield(); sched_yield(); break;
    }
}
int __wrap_pthread_barrier_wait(pthread_barrier_t *b)
{
    int r;
    delay();
    __atomic_fetch_add(&vh_barriers, 1, __ATOMIC_RELAXED);
    if (vh_barrierCap && vh_barriers > vh_barrierCap)
        vh_viol("endless-collecting", "one allocation stopped the world over and over");
    r = __real_pthread_barrier_wait(b);
    delay();
    return r;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { int r; delay(); r = __real_pthread_mutex_lock(m); delay(); return r; }
/* now and then, as if another thread had the lock for a moment */
int vh_busyPct = 0;
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    delay();
    if (vh_busyPct) {
        if (!delayRng.s) delayRng.s = (uint64_t) (uintptr_t) &delayRng ^ (uint64_t) vh_arg("seed", 1) * 7919;
        if (vh_next(&delayRng) % 100 < (uint64_t) vh_busyPct) {
            if (vh_next(&delayRng) % 2) { struct timespec ts = { 0, (long) (vh_next(&delayRng) % 300000) }; nanosleep(&ts, NULL); }
            return EBUSY;
        }
    }
    return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); delay(); return r; }
int __real_sem_wait(sem_t *); int __real_sem_post(sem_t *);
int __wrap_sem_wait(sem_t *m) { int r; delay(); r = __real_sem_wait(m); delay(); return r; }
int __wrap_sem_post(sem_t *m) { int r; delay(); r = __real_sem_post(m); delay(); return r; }
#ifdef VH_GENBAR
int __real_ggc_barrier_wait_raw(void *);
int __wrap_ggc_barrier_wait_raw(void *b)
{
    delay();
    __atomic_fetch_add(&vh_barriers, 1, __ATOMIC_RELAXED);
    if (vh_barrierCap && vh_barriers > vh_barrierCap)
        vh_viol("endless-collecting", "one allocation stopped the world over and over");
    return __real_ggc_barrier_wait_raw(b);
}
#endif
static volatile long threadNo;
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
    long i = __atomic_add_fetch(&threadNo, 1, __ATOMIC_RELAXED);
    if (vh_failThread && i % vh_failThread == 0) return EAGAIN;
    delay();
    return __real_pthread_create(t, a, f, x);
}

/* ---- watchdog ---- */
static volatile long *wdProgress; static long wdSeconds; static volatile int wdStop;
static const char *(*wdDescribe)(void); static pthread_t wdThread; static volatile long wdTid;

/* the number of context switches of all the other threads, or -1 if one of them
 * could be running */
static long switches(void)
{
    DIR *d; struct dirent *e; long sum = 0;
    if (!(d = opendir("/proc/self/task"))) return -1;
    while ((e = readdir(d))) {
        char nm[300], line[200]; FILE *f; long v; char st;
        if (e->d_name[0] == '.' || atol(e->d_name) == wdTid) continue;
        snprintf(nm, sizeof nm, "/proc/self/task/%s/status", e->d_name);
        if (!(f = fopen(nm, "r"))) { sum = -1; break; }
        while (fgets(line, sizeof line, f)) {
            if (sscanf(line, "State: %c", &st) == 1 && st != 'S') { sum = -1; break; }
            if (sscanf(line, "voluntary_ctxt_switches: %ld", &v) == 1 ||
                sscanf(line, "nonvoluntary_ctxt_switches: %ld", &v) == 1) sum += v;
        }
        fclose(f);
        if (sum < 0) break;
    }
    closedir(d);
    return sum;
}
static void *watch(void *x)
{
    long last = -1, quiet = 0, sw = -1, still = 0;
    wdTid = (long) syscall(SYS_gettid);
    while (!wdStop) {
        struct timespec ts = { 0, 100000000 };
        nanosleep(&ts, NULL);
        if (*wdProgress != last) { last = *wdProgress; quiet = 0; sw = -1; still = 0; continue; }
        quiet++;
        if (quiet >= 50 && quiet % 5 == 0) {
            long s = switches();
            if (s >= 0 && s == sw) still++; else still = 0;
            sw = s;
            /* all asleep, and never scheduled for 5 s: nobody will wake them */
            if (still >= 10)
                vh_viol("deadlock", "every thread sleeps and nothing can wake them;%s %ld barrier waits", wdDescribe ? wdDescribe() : "", vh_barriers);
        }
        if (quiet >= wdSeconds * 10)
            vh_viol("no-progress", "no thread did anything for %ld seconds;%s %ld barrier waits", wdSeconds, wdDescribe ? wdDescribe() : "", vh_barriers);
    }
    return x;
}
void vh_watchStart(volatile long *progress, long seconds, const char *(*describe)(void))
{
    wdProgress = progress; wdSeconds = seconds; wdDescribe = describe;
    if (__real_pthread_create(&wdThread, NULL, watch, NULL)) vh_bug("pthread_create");
}
void vh_watchStop(void) { wdStop = 1; pthread_join(wdThread, NULL); }

#ifdef __cplusplus
}
#endif
