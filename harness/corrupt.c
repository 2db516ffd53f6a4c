/* The corruption checker of debugging builds: a correct program that then
 * overwrites the guard word of one live object has to be stopped with the
 * checker's message by the next collection, whatever and wherever the object
 * is; the same program without the overwriting has to end normally. Every trial
 * is a process of its own. */
#include "vh.h"
#include "ggggc/gc.h"
#include "ggggc/collections/list.h"
#include <unistd.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>

size_t vh_poolBytes = GGGGC_POOL_BYTES;
#define POOLCAP ((GGGGC_POOL_BYTES - offsetof(struct GGGGC_Pool, start)) / sizeof(ggc_size_t))
#define HDR (sizeof(struct GGGGC_Header) / sizeof(ggc_size_t))

GGC_TYPE(Node)
    GGC_MPTR(Node, next);
    GGC_MPTR(Node, other);
    GGC_MDATA(ggc_size_t, id);
    GGC_MPTR(Node, any);
GGC_END_TYPE(Node,
    GGC_PTR(Node, next)
    GGC_PTR(Node, other)
    GGC_PTR(Node, any)
    )
GGC_LIST(Node)

static vh_rng R;
static Node chain = NULL, glob = NULL;
static NodeArray arr = NULL;
static Node *volatile thVar[4];
static Node *other;                 /* a root of another kind, if any */

static ggc_size_t rnd(ggc_size_t n) { return (ggc_size_t) vh_below(&R, n); }
static void junk(ggc_size_t words)
{
    Node n = NULL; ggc_size_t w = 0;
    GGC_PUSH_1(n);
    while (w < words) {
        if (vh_pct(&R, 10)) { ggc_size_t l = rnd(60); n = (Node) (void *) GGC_NEW_DA(size_t, l); w += l + HDR + 1; n = NULL; }
        else { n = GGC_NEW(Node); w += sizeof(struct Node__ggggc_struct) / sizeof(ggc_size_t); }
        GGC_YIELD();
    }
    GGC_POP();
}
/* a live heap of objects of several kinds and ages */
static void build(void)
{
    ggc_size_t i, n = 20 + rnd(400), ages = rnd(6);
    Node x = NULL, y = NULL;
    GGC_PUSH_2(x, y);
    arr = GGC_NEW_PA(Node, 24);
    for (i = 0; i < n; i++) {
        x = GGC_NEW(Node);
        GGC_WD(x, id, i);
        GGC_WP(x, next, chain);
        chain = x;
        switch (rnd(10)) {
            case 0: { ggc_size_t k = rnd(24); GGC_WAP(arr, k, x); break; }
            case 1: y = (Node) (void *) GGC_NEW_DA(size_t, rnd(90)); GGC_WP(chain, any, y); break;
            case 2: y = (Node) (void *) GGC_NEW_PA(Node, rnd(40)); GGC_WP(chain, any, y); break;
            case 3: { ggc_size_t l = POOLCAP - HDR - 1 - rnd(POOLCAP / 2); if (i % 7 == 0) { y = (Node) (void *) GGC_NEW_DA(size_t, l); GGC_WP(chain, any, y); } break; }
            case 4: { struct GGGGC_Descriptor *d = ggggc_allocateDescriptor(HDR + 1 + rnd(30), 1); y = (Node) (void *) d; GGC_WP(chain, any, y); y = (Node) GGC_NEW_FROM_DESCRIPTOR(d); GGC_WP(chain, other, y); break; }
            default: GGC_WP(x, other, x); break;
        }
        GGC_YIELD();
        if (vh_pct(&R, 2)) GGC_COLLECT();
        if (vh_pct(&R, 5)) junk(rnd(POOLCAP));
    }
    while (ages--) { junk(rnd(POOLCAP * 2)); if (vh_pct(&R, 50)) GGC_COLLECT(); }
    x = y = NULL;
    GGC_POP();
}

/* ---- threads that hold objects ---- */
#ifndef GGGGC_NO_THREADS
static ggc_mutex_t block = GGC_MUTEX_INITIALIZER;
static volatile int ready, stop;
static void holder(GGC_ThreadArg a)
{
    Node x = NULL; int k, i; void *d;
    d = GGC_RD(a, darg); k = (int) (size_t) d;
    GGC_PUSH_1(x);
    x = GGC_NEW(Node);
    { ggc_size_t l = (ggc_size_t) k; GGC_WD(x, id, l); }
    if (k & 1) for (i = 0; i < 300; i++) { GGC_NEW(Node); GGC_YIELD(); }
    thVar[k] = &x;
    __atomic_add_fetch(&ready, 1, __ATOMIC_ACQ_REL);
    if (k & 2) { ggc_mutex_lock(&block); ggc_mutex_unlock(&block); }
    else while (!__atomic_load_n(&stop, __ATOMIC_ACQUIRE)) { GGC_YIELD(); usleep(50); }
    GGC_POP();
}
static int startThread(ggc_thread_t *th, void (*f)(GGC_ThreadArg), ggc_size_t d)
{
    GGC_ThreadArg a = NULL; void *darg = (void *) d;
    GGC_PUSH_1(a);
    a = GGC_NEW(GGC_ThreadArg);
    GGC_WD(a, darg, darg);
    return ggc_thread_create(th, f, a);
}
static void leaver(GGC_ThreadArg a)
{
    Node x = NULL; int i; (void) a;
    GGC_PUSH_1(x);
    for (i = 0; i < 40; i++) { x = GGC_NEW(Node); GGC_WP(x, next, glob); glob = x; GGC_YIELD(); }
    GGC_POP();
}
#endif

static const char *kindName[] = { "none", "chain", "element", "payload", "descriptor", "descriptor-descriptor", "root", "globalized", "array", "running-thread", "blocked-thread", "ended-thread", "jit", "newest", "array-descriptor" };
#define NKIND ((int) (sizeof(kindName) / sizeof(*kindName)))

#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
#define GUARD(o) (((struct GGGGC_Header *) (o))->ggggc_memoryCorruptionCheck)
#endif

/* one trial; comes back only if nobody stopped the program */
static void trial(int kind, int how, int trigger)
{
    Node r0 = NULL, r1 = NULL, v = NULL; void *victim = NULL; ggc_size_t i;
    int threads = 0;
#ifndef GGGGC_NO_THREADS
    ggc_thread_t th[4];
#endif
    { GGC_PUSH_3(chain, arr, glob); GGC_GLOBALIZE(); GGC_POP(); }
    GGC_PUSH_3(r0, r1, v);
    build();
    r0 = GGC_NEW(Node); r1 = r0;
    if (vh_pct(&R, 50)) { junk(POOLCAP * rnd(4)); if (vh_pct(&R, 50)) GGC_COLLECT(); }
#ifdef GGGGC_FEATURE_JITPSTACK
    {
        static void *space[64];
        ggc_jitPointerStackEnd = space + 64;
        ggc_jitPointerStack = space + 40;
#ifdef GGGGC_FEATURE_EXTTAG
        ggc_jitPointerStackEnd = space + 58;    /* two groups of eight words and their tags */
        space[40] = (void *) (ggc_size_t) 0x0101010101010100; space[49] = (void *) (ggc_size_t) 0x0101010101010100;
#endif
        r0 = GGC_NEW(Node); space[41] = r0; other = (Node *) &space[41];
        r0 = GGC_NEW(Node);
        if (vh_pct(&R, 50)) { junk(POOLCAP * rnd(4)); if (vh_pct(&R, 50)) GGC_COLLECT(); }
    }
#endif
#ifndef GGGGC_NO_THREADS
    if (kind == 11 || vh_pct(&R, 30)) { if (startThread(&th[0], leaver, 0)) _exit(3); if (ggc_thread_join(th[0])) _exit(3); }
    if (kind == 9 || kind == 10 || vh_pct(&R, 25)) {
        ggc_mutex_lock(&block);
        for (threads = 0; threads < 4; threads++) if (startThread(&th[threads], holder, (ggc_size_t) threads)) _exit(3);
        while (__atomic_load_n(&ready, __ATOMIC_ACQUIRE) < 4) { GGC_YIELD(); usleep(20); }
    }
#endif
    v = chain;
    for (i = rnd(300); i; i--) { if (GGC_RP(v, next)) v = GGC_RP(v, next); else v = chain; }
    /* no collection can happen from here on */
    switch (kind) {
        case 0: break;
        case 1: victim = v; break;
        case 2: for (i = 0; i < 24; i++) if (GGC_RAP(arr, i)) victim = GGC_RAP(arr, i); if (!victim) victim = arr; break;
        case 3: { Node o; victim = v; for (o = chain; o; o = GGC_RP(o, next)) if (GGC_RP(o, any) && (victim == v || vh_pct(&R, 30))) victim = GGC_RP(o, any); break; }
        case 4: victim = v->header.descriptor__ptr; break;
        case 5: victim = v->header.descriptor__ptr->header.descriptor__ptr; break;
        case 6: victim = r1; break;
        case 7: victim = glob ? (void *) glob : (void *) v; break;
        case 8: victim = arr; break;
        case 9: case 10:
            victim = *thVar[(kind == 10 ? 2 : 0) + rnd(2)];
            break;
        case 11: victim = glob ? (void *) glob : (void *) v; break;
        case 12: victim = other ? *other : v; break;
        case 13: victim = r0; break;
        case 14: victim = arr->header.descriptor__ptr; break;
        default: victim = v; break;
    }
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
    if (victim) {
        ggc_size_t g = GUARD(victim), w;
        switch (how) {
            case 0: w = g ^ ((ggc_size_t) 1 << rnd(8 * sizeof(ggc_size_t))); break;
            case 1: w = 0; break;
            case 2: w = ~(ggc_size_t) 0; break;
            case 3: w = (ggc_size_t) victim; break;
            case 4: w = g + 1; break;
            default: w = (ggc_size_t) vh_next(&R); break;
        }
        if (w == g) w ^= 4;
        GUARD(victim) = w;
    }
#else
    (void) how; (void) victim;
#endif
    v = NULL;
    {
    /* collections use the barrier, so that the first one is seen to have ended */
    long bar = vh_barriers;
    switch (trigger) {
        case 0: GGC_COLLECT(); break;
        case 1: { /* by allocating */
            unsigned long w = 0;
            while (vh_barriers == bar && w < POOLCAP * 8UL * (unsigned long) (vh_pools + 3)) { junk(64); w += 64; }
            break; }
        default: { /* by large objects */
            unsigned long w = 0; ggc_size_t l = POOLCAP - HDR - 1 - rnd(POOLCAP / 2);
            while (vh_barriers == bar && w < POOLCAP * 8UL * (unsigned long) (vh_pools + 3)) { GGC_NEW_DA(size_t, l); w += l; GGC_YIELD(); }
            break; }
    }
    }
    if (kind) return;
#ifndef GGGGC_NO_THREADS
    if (threads) {
        __atomic_store_n(&stop, 1, __ATOMIC_RELEASE);
        ggc_mutex_unlock(&block);
        while (threads) ggc_thread_join(th[--threads]);
    }
#endif
    GGC_COLLECT();
    GGC_POP();
}

int main(int argc, char **argv)
{
    long trials, t, detected = 0, silent = 0; long perKind[32]; int i;
    vh_init(argc, argv);
    memset(perKind, 0, sizeof perKind);
    trials = vh_arg("trials", 32);
    for (t = 0; t < trials; t++) {
        int pfd[2], st; pid_t pid; char buf[1200]; size_t got = 0; int kind, how, trigger, timedOut = 0;
        vh_rng q; q.s = (uint64_t) vh_arg("seed", 1) * 104729 + (uint64_t) t;
        vh_next(&q);
        kind = vh_pct(&q, 20) ? 0 : 1 + (int) vh_below(&q, NKIND - 1);
        if (vh_arg("kind", -1) >= 0) kind = (int) vh_arg("kind", -1);
#ifdef GGGGC_NO_THREADS
        if (kind >= 9 && kind <= 11) kind = 1;
#endif
        how = (int) vh_below(&q, 6); trigger = (int) vh_below(&q, 3);
        if (pipe(pfd)) vh_bug("pipe");
        fflush(stdout); fflush(stderr);
        if ((pid = fork()) < 0) vh_bug("fork");
        if (!pid) {
            dup2(pfd[1], 2); close(pfd[0]); close(pfd[1]);
            signal(SIGABRT, SIG_DFL);
            R.s = q.s; vh_next(&R);
            trial(kind, how, trigger);
            _exit(0);
        }
        close(pfd[1]);
        for (;;) {
            struct pollfd p; ssize_t n; char d[200];
            p.fd = pfd[0]; p.events = POLLIN;
            if (poll(&p, 1, 40000) == 0) { kill(pid, SIGKILL); timedOut = 1; }
            n = read(pfd[0], d, sizeof d);
            if (n < 0 && errno == EINTR) continue;
            if (n <= 0) break;
            /* the end of it */
            if (got + (size_t) n >= sizeof buf) { size_t drop = got + (size_t) n - sizeof buf + 1; memmove(buf, buf + drop, got - drop); got -= drop; }
            memcpy(buf + got, d, (size_t) n); got += (size_t) n;
        }
        close(pfd[0]); buf[got] = 0;
        for (i = 0; buf[i]; i++) if (buf[i] == '\n') buf[i] = ' ';
        if (waitpid(pid, &st, 0) != pid) vh_bug("waitpid");
        if (timedOut) vh_viol("no-progress", "trial %ld (%s, %d, %d) did not end: %s", t, kindName[kind], how, trigger, buf);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) vh_bug("a thread could not be created");
        if (!kind) {
            if (!WIFEXITED(st) || WEXITSTATUS(st)) vh_viol("false-accusation", "trial %ld: a correct program ended with status %x: %s", t, (unsigned) st, buf);
            silent++;
        } else {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) vh_viol("undetected", "trial %ld: the guard word of a live object (%s) was overwritten (%d), and nothing stopped the program (%d)", t, kindName[kind], how, trigger);
            if (!strstr(buf, "orruption")) vh_viol("no-message", "trial %ld (%s, %d, %d): ended with status %x, without the message: %s", t, kindName[kind], how, trigger, (unsigned) st, buf);
            detected++; perKind[kind]++;
        }
        vh_distinct("trials", vh_hash(vh_hash(vh_hash((uint64_t) kind, (uint64_t) how), (uint64_t) trigger), q.s));
    }
    vh_stat("damage_detected", detected); vh_stat("silent_on_correct", silent);
    for (i = 1; i < NKIND; i++) { static char nm[32][40]; snprintf(nm[i], sizeof nm[i], "detected_%s", kindName[i]); vh_stat(nm[i], perKind[i]); }
    vh_sample("%ld programs damaged one guard word and were stopped, %ld correct ones ran to their end", detected, silent);
    vh_done();
    return 0;
}
