/* Requests that no pool can hold. Each is made in a process of its own, among
 * live objects and other allocating threads. It may be refused (the process
 * ends, or NULL), or met if there is room; it may not hang, crash, overrun, or
 * return an object that is smaller than what was asked for. */
#include "vh.h"
#include "ggggc/gc.h"
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef __cplusplus
extern "C" {
#endif
size_t vh_poolBytes = GGGGC_POOL_BYTES;
#ifdef __cplusplus
}
#endif

#define W sizeof(ggc_size_t)
#define POOLCAP ((GGGGC_POOL_BYTES - offsetof(struct GGGGC_Pool, start)) / W)
#define HDR (sizeof(struct GGGGC_Header) / W)
#define TOP ((ggc_size_t) -1)
static vh_rng R;

GGC_TYPE(Node)
    GGC_MPTR(Node, next);
    GGC_MDATA(ggc_size_t, v);
GGC_END_TYPE(Node,
    GGC_PTR(Node, next)
    )

static volatile int running;
static void churner(GGC_ThreadArg a)
{
    Node n = NULL, p = NULL; ggc_size_t i = 0, v; (void) a;
    GGC_PUSH_2(n, p);
    for (;;) {
        n = GGC_NEW(Node); v = i; GGC_WD(n, v, v); GGC_WP(n, next, p);
        if (p && GGC_RD(p, v) + 1 != i) vh_viol("data-changed", "a thread's object %lu", (unsigned long) i);
        p = n; if (++i % 50 == 0) { Node nul = NULL; GGC_WP(p, next, nul); }
        __atomic_store_n(&running, 1, __ATOMIC_RELAXED);
        GGC_YIELD();
    }
}

/* element sizes whose product with a count is interesting */
static const ggc_size_t elems[] = {1, 2, 4, 8, 12, 16, 24, 56, 4096, 65536, (ggc_size_t) 1 << 32, (ggc_size_t) 1 << 63};
#define NELEM (sizeof elems / sizeof *elems)

#define KINDS 7
static const char *kindName[KINDS] = {"dataArray", "dataArrayWrap", "pointerArray", "pointerArrayHuge", "descriptor", "descriptorL", "slot"};
static ggc_size_t nearly(vh_rng *q)
{
    switch (vh_below(q, 5)) {
        case 0: return 0;
        case 1: return vh_below(q, 4);
        case 2: return vh_below(q, 70);
        case 3: return vh_below(q, POOLCAP);
        default: return POOLCAP * vh_below(q, 5);
    }
}

/* the object must lie in memory the library got from the system */
static void holds(void *p, ggc_size_t words, const char *what)
{
    char *b = (char *) p, *end = vh_poolEnd(p);
    if (words > (ggc_size_t) 1 << 32) vh_viol("too-small", "%s: %lx words were asked for and %p returned", what, (unsigned long) words, p);
    if (end && words * W > (size_t) (end - b))
        vh_viol("too-small", "%s: %lu words were asked for, and the object returned has at most %lu", what, (unsigned long) words, (unsigned long) (end - b) / W);
    memset(b + (HDR + 1) * W, 0, (words - HDR - 1) * W);
}

static int request(int kind, vh_rng *q)
{
    GGC_size_t_Array a = NULL; ggc_size_t n, size, words, k; void *o = NULL; struct GGGGC_Descriptor *d = NULL;
    GGC_PUSH_1(a);
    switch (kind) {
        case 0: /* elements just or far too many */
        case 1: /* so many that the number of bytes wraps around */
            size = elems[vh_below(q, NELEM)];
            if (kind == 0) {
                n = POOLCAP * W / size + 1 + nearly(q);
                if (vh_pct(q, 20)) n = TOP / size - nearly(q) % (TOP / size / 2 + 1);
                if (n > TOP / size) n = TOP / size;
                words = (n * size - 1) / W + 1;
                if (words + HDR + 1 <= POOLCAP) return 9;
            } else {
                if (size == 1) { n = TOP - vh_below(q, W); words = TOP / W; }
                else {
                    k = 1 + vh_below(q, size - 1 < 8 ? size - 1 : 8);    /* wraps k times */
                    n = (ggc_size_t) (((unsigned __int128) k << 64) / size) + nearly(q) + (vh_pct(q, 50) ? 1 : 0);
                    if ((unsigned __int128) n * size <= (unsigned __int128) TOP - W) return 9;
                    words = TOP / W;
                }
            }
            a = (GGC_size_t_Array) ggggc_mallocDataArray(n, size);
            if (!a) return 8;
            if (a->length != n) vh_viol("wrong-length", "%lu elements of %lu bytes: length %lu", (unsigned long) n, (unsigned long) size, (unsigned long) a->length);
            holds(a, words + HDR + 1, kindName[kind]);
            break;
        case 2:
        case 3:
            n = kind == 2 ? POOLCAP - HDR + nearly(q) :
                vh_pct(q, 50) ? TOP - nearly(q) : ((ggc_size_t) 1 << (58 + vh_below(q, 6))) + nearly(q);
            o = ggggc_mallocPointerArray(n);
            if (!o) return 8;
            words = n > TOP - HDR - 1 ? n : n + HDR + 1;
            a = (GGC_size_t_Array) o;
            holds(a, words, kindName[kind]);
            break;
        default:
            n = POOLCAP + 1 + nearly(q);
            if (vh_pct(q, 50)) n = vh_pct(q, 50) ? TOP - nearly(q) : ((ggc_size_t) 1 << (58 + vh_below(q, 6))) + nearly(q);
            if (kind == 6) {
                static struct GGGGC_DescriptorSlot slot = {GGC_MUTEX_INITIALIZER, NULL, 0, 0};
                slot.size = n; slot.pointers = 0;
                o = ggggc_mallocSlot(&slot);
            } else {
                d = kind == 4 ? ggggc_allocateDescriptor(n, vh_pct(q, 50) ? 0 : 1 << HDR) : ggggc_allocateDescriptorL(n, NULL);
                if (!d) return 8;
                o = ggggc_malloc(d);
            }
            if (!o) return 8;
            holds(o, n, kindName[kind]);
            return 0;
    }
    return 0;
}

static int trial(int kind, vh_rng *q)
{
    Node chain = NULL, x = NULL; GGC_size_t_Array big = NULL; ggc_size_t i, v, n = vh_below(q, 600); int r;
    GGC_PUSH_3(chain, x, big);
    vh_junk = 1;
    for (i = 0; i < n; i++) { x = GGC_NEW(Node); v = i; GGC_WD(x, v, v); GGC_WP(x, next, chain); chain = x; }
#ifndef GGGGC_NO_THREADS
    if (vh_pct(q, 40)) {
        ggc_thread_t th; GGC_ThreadArg a = NULL;
        GGC_PUSH_1(a);
        a = GGC_NEW(GGC_ThreadArg);
        if (ggc_thread_create(&th, churner, a)) _exit(3);
        while (!__atomic_load_n(&running, __ATOMIC_RELAXED)) GGC_YIELD();
        GGC_POP();
    }
#endif
    if (vh_pct(q, 50)) { /* what just fits is had */
        big = GGC_NEW_DA(size_t, POOLCAP - 1 - HDR);
        holds(big, POOLCAP, "what just fits");
    }
    /* a collection may be needed, but not one after the other */
    vh_barrierCap = vh_barriers + 3 * (4 * GGGGC_GENERATIONS + 8) + 3000;
    r = request(kind, q);
    vh_barrierCap = 0;
    GGC_COLLECT();
    for (i = n, x = chain; i; i--) {
        if (!x || GGC_RD(x, v) != i - 1) vh_viol("damaged", "object %lu after a large request", (unsigned long) i - 1);
        x = GGC_RP(x, next);
    }
    return r;
}

int main(int argc, char **argv)
{
    long t, trials, ended = 0, null = 0, met = 0, per[KINDS]; int i;
    vh_init(argc, argv);
    trials = vh_arg("trials", 30); memset(per, 0, sizeof per);
    for (t = 0; t < trials; t++) {
        int pfd[2], st, kind, sig, rc; pid_t pid; char buf[1200]; size_t got = 0; int timedOut = 0;
        vh_rng q; q.s = (uint64_t) vh_arg("seed", 1) * 104729 + (uint64_t) t;
        vh_next(&q);
        kind = (int) vh_arg("kind", (long) vh_below(&q, KINDS));
        if (pipe(pfd)) vh_bug("pipe");
        fflush(stdout); fflush(stderr);
        if ((pid = fork()) < 0) vh_bug("fork");
        if (!pid) {
            dup2(pfd[1], 1); dup2(pfd[1], 2); close(pfd[0]); close(pfd[1]);
            signal(SIGABRT, SIG_DFL);
            R.s = q.s; vh_next(&R);
            _exit(trial(kind, &q));
        }
        close(pfd[1]);
        for (;;) {
            struct pollfd p; ssize_t n; char d[200];
            p.fd = pfd[0]; p.events = POLLIN;
            if (poll(&p, 1, 60000) == 0) { kill(pid, SIGKILL); timedOut = 1; }
            n = read(pfd[0], d, sizeof d);
            if (n < 0 && errno == EINTR) continue;
            if (n <= 0) break;
            if (got + (size_t) n >= sizeof buf) n = (ssize_t) (sizeof buf - got - 1); /* the start of it */
            memcpy(buf + got, d, (size_t) n); got += (size_t) n;
        }
        close(pfd[0]); buf[got] = 0;
        for (i = 0; buf[i]; i++) if (buf[i] == '\n') buf[i] = ' ';
        if (waitpid(pid, &st, 0) != pid) vh_bug("waitpid");
        sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
        if (timedOut) vh_viol("no-progress", "request %ld (%s): neither met nor refused: %s", t, kindName[kind], buf);
        if (rc == 9) continue; /* not that large after all */
        if (rc == 3) vh_bug("a thread could not be created");
        if (rc == 0) met++;
        else if (rc == 8) null++;
        else if (sig == SIGABRT) ended++;
        else if (sig == SIGKILL) vh_bug("killed");
        else vh_viol("bad-end", "request %ld (%s): status %x: %s", t, kindName[kind], (unsigned) st, buf);
        per[kind]++;
        vh_distinct("requests", vh_hash(vh_hash(q.s, (uint64_t) kind), (uint64_t) t));
    }
    vh_stat("oversized", ended + null + met); vh_stat("refused_by_ending", ended); vh_stat("refused_by_null", null); vh_stat("met", met);
    for (i = 0; i < KINDS; i++) { static char nm[KINDS][40]; snprintf(nm[i], sizeof nm[i], "requests_%s", kindName[i]); vh_stat(nm[i], per[i]); }
    vh_sample("%ld requests larger than a pool: %ld ended the program with a diagnostic, %ld returned NULL, %ld were met", ended + null + met, ended, null, met);
    vh_done();
    return 0;
}
