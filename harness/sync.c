/* Monitors for the threading API: mutexes exclude, semaphores conserve,
 * barriers rendezvous, joined threads are over and ran once, whatever the
 * collector does meanwhile; and a thread that waited finds its objects as they
 * were. Every operation is recorded with tickets taken before and after it;
 * the records are judged when all is over. */
#include "vh.h"
#include "ggggc/gc.h"
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>

#ifdef __cplusplus
extern "C"
#endif
size_t vh_poolBytes;
size_t vh_poolBytes = GGGGC_POOL_BYTES;
#if defined(__SANITIZE_THREAD__)
#define TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
#ifndef TSAN
#define TSAN 0
#endif
/* ThreadSanitizer takes destroying a barrier for a race with leaving it, which
 * POSIX allows; there, it is destroyed when all have met again */


GGC_TYPE(Obj)
    GGC_MDATA(ggc_size_t, id);
    GGC_MPTR(Obj, next);
    GGC_MDATA(ggc_size_t, sum);
GGC_END_TYPE(Obj,
    GGC_PTR(Obj, next)
    )

static long seed; static volatile long progress;
#define SUM(id) ((ggc_size_t) (id) * 2654435761u + 12345)
#define CHAIN 12

static Obj makeChain(ggc_size_t base)
{
    Obj head = NULL, o = NULL; ggc_size_t i;
    GGC_PUSH_2(head, o);
    for (i = 0; i < CHAIN; i++) {
        ggc_size_t id = base + i, s = SUM(id);
        o = GGC_NEW(Obj);
        GGC_WD(o, id, id); GGC_WD(o, sum, s); GGC_WP(o, next, head);
        head = o;
    }
    return head;
}
static void checkChain(Obj head, ggc_size_t base, const char *where)
{
    ggc_size_t i;
    for (i = CHAIN; i-- > 0; head = GGC_RP(head, next)) {
        if (!head) vh_viol("lost", "%s: the chain of %d objects ends after %lu", where, CHAIN, (unsigned long) (CHAIN - 1 - i));
        if (GGC_RD(head, id) != base + i || GGC_RD(head, sum) != SUM(base + i))
            vh_viol("damaged", "%s: object %lu reads as %lu", where, (unsigned long) (base + i), (unsigned long) GGC_RD(head, id));
    }
    if (head) vh_viol("damaged", "%s: the chain goes on", where);
}
static void junk(int n) { Obj o = NULL; GGC_PUSH_1(o); while (n-- > 0) o = GGC_NEW(Obj); GGC_POP(); }

static volatile long collections, waiting, collWhileWaiting;
static void collect(void)
{
    if (__atomic_load_n(&waiting, __ATOMIC_RELAXED)) __atomic_fetch_add(&collWhileWaiting, 1, __ATOMIC_RELAXED);
    GGC_COLLECT();
    __atomic_fetch_add(&collections, 1, __ATOMIC_RELAXED);
}

#ifdef GGGGC_NO_THREADS
static void noThread(GGC_ThreadArg a) { (void) a; vh_viol("thread", "a thread ran without threads"); }
int main(int argc, char **argv)
{
    ggc_mutex_t m = GGC_MUTEX_INITIALIZER; ggc_sem_t s; ggc_barrier_t b; ggc_thread_t t = 0; long i; Obj c = NULL;
    GGC_PUSH_1(c);
    vh_init(argc, argv); seed = vh_arg("seed", 1);
    (void) m; (void) s; (void) b; (void) t; (void) noThread;
    c = makeChain((ggc_size_t) seed * 1000);
    for (i = 0; i < 200; i++) {
        if (ggc_mutex_lock(&m) || ggc_mutex_trylock(&m) || ggc_mutex_unlock(&m)) vh_viol("result", "mutex without threads");
        if (ggc_sem_init(&s, 1) || ggc_sem_wait(&s) || ggc_sem_post(&s) || ggc_sem_destroy(&s)) vh_viol("result", "semaphore without threads");
        if (ggc_barrier_init(&b, 1) || ggc_barrier_wait(&b) || ggc_barrier_destroy(&b)) vh_viol("result", "barrier without threads");
        if (!ggc_thread_create(&t, noThread, NULL)) vh_viol("result", "created a thread without threads");
        if (!ggc_thread_join(t)) vh_viol("result", "joined a thread without threads");
        if (ggc_pre_blocking(), ggc_post_blocking(), i % 4 == 0) collect();
        junk(10); checkChain(c, (ggc_size_t) seed * 1000, "without threads");
    }
    vh_stat("collections", collections); vh_stat("operations", i); vh_stat("waits", i); vh_stat("collections_while_waiting", i);
    vh_done();
    return 0;
}
#else

#define MAXT 12
#define NM 4
#define NS 3
#define NT 3
#define MAXG 4
enum { E_LOCK, E_TRY, E_UNLOCK, E_WAIT, E_POST, E_ARRIVE, E_CREATE, E_RUN, E_JOIN };
typedef struct { long before, after; int kind, obj, round, thread; } Ev;
typedef struct { Ev *e; long n, cap; } Log;
static Log logs[MAXT + 1]; static Ev *all; static long nAll;
static volatile long ticket;
static long tick(void) { return __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED); }
static void rec(int t, int kind, int obj, int round, long before, long after)
{
    Log *l = &logs[t];
    if (l->n == l->cap) { l->cap = l->cap ? l->cap * 2 : 1024; l->e = (Ev *) vh_realloc(l->e, (size_t) l->cap * sizeof *l->e); }
    l->e[l->n].before = before; l->e[l->n].after = after; l->e[l->n].kind = kind; l->e[l->n].obj = obj; l->e[l->n].round = round; l->e[l->n].thread = t;
    l->n++;
}

static long nThreads, nPhases, nOps, colPct;
static ggc_mutex_t mutexes[NM] = { GGC_MUTEX_INITIALIZER, GGC_MUTEX_INITIALIZER };     /* the others by copying */
static long guarded[NM][2], guardedAtomic[NM]; static int owner[NM];
static ggc_sem_t permits[NS]; static long permitCount[NS]; static volatile long permitUsed[NS];
static ggc_sem_t tokens[NT]; static volatile long tokensPosted[NT], tokensTaken[NT]; static long tokensInit[NT];
static ggc_barrier_t phaseBarrier, *groups[MAXG]; static int killer[MAXG];
static int groupOf[MAXT], groupSize[MAXG]; static long nGroups, groupRounds;
static volatile long arrived[MAXG][8]; static long plainOf[MAXT];
static volatile long childRuns; static long contended;

typedef struct { long no; int runs; long value; int parent; long firstTicket, lastTicket; } Child;
#define MAXC 4096
static Child children[MAXC]; static volatile long nextChild; static long refused;

static void childMain(GGC_ThreadArg arg)
{
    Child *c = (Child *) GGC_RD(arg, darg); Obj o = NULL; vh_rng R; GGC_ThreadArg p = NULL;
    GGC_PUSH_3(arg, o, p);
    c->firstTicket = tick();
    R.s = (uint64_t) seed * 31 + (uint64_t) c->no;
    if (__atomic_fetch_add(&c->runs, 1, __ATOMIC_RELAXED)) vh_viol("thread-twice", "a thread's function runs twice");
    __atomic_fetch_add(&childRuns, 1, __ATOMIC_RELAXED);
    o = makeChain((ggc_size_t) c->no * 100);
    junk((int) vh_below(&R, 60)); if (vh_pct(&R, 20)) collect();
    checkChain(o, (ggc_size_t) c->no * 100, "thread just started");
    p = (GGC_ThreadArg) GGC_RP(arg, parg);
    if (!p || GGC_RD(p, darg) != (void *) c) vh_viol("wrong-arg", "thread %ld was given another argument", c->no);
    c->value = c->no * 7 + 1;
    c->lastTicket = tick();
    GGC_POP();
}
/* whether it was started */
static int spawn(int me, int parent, ggc_thread_t *th, Child **cp)
{
    GGC_ThreadArg a = NULL, p = NULL; void *darg; Child *c; long t0; int r; long k = __atomic_fetch_add(&nextChild, 1, __ATOMIC_RELAXED);
    GGC_PUSH_2(a, p);
    if (k >= MAXC) return 0;
    c = &children[k]; c->no = k + 1; c->parent = parent;
    darg = (void *) c;
    p = GGC_NEW(GGC_ThreadArg); GGC_WD(p, darg, darg);
    a = GGC_NEW(GGC_ThreadArg); GGC_WD(a, darg, darg); GGC_WP(a, parg, p);
    t0 = tick();
    r = ggc_thread_create(th, childMain, a);
    if (r) {
        if (!vh_failThread) vh_viol("result", "ggc_thread_create failed, errno %d", errno);
        if (r != -1 || !errno) vh_viol("result", "a refused ggc_thread_create returned %d, errno %d", r, errno);
        __atomic_fetch_add(&refused, 1, __ATOMIC_RELAXED); c->no = 0; return 0;
    }
    rec(me, E_CREATE, (int) k, 0, t0, tick());
    *cp = c;
    return 1;
}

static const char *opName[] = { "start", "lock", "trylock", "permit", "token", "barrier", "spawn", "join", "raw wait", "phase barrier", "end" };
static int curOp[MAXT + 1];

/* signals, to interrupt those who wait */
static volatile long interruptions, handled; static volatile int pestStop; static volatile long ended; static ggc_thread_t workers[MAXT];
static void onUsr1(int s) { (void) s; __atomic_fetch_add(&handled, 1, __ATOMIC_RELAXED); }
static void *pest(void *x)
{
    vh_rng R; R.s = (uint64_t) seed * 13 + 1;
    while (!__atomic_load_n(&pestStop, __ATOMIC_RELAXED)) {
        struct timespec ts = { 0, (long) vh_below(&R, 300000) };
        nanosleep(&ts, NULL);
        pthread_kill(workers[vh_below(&R, (uint64_t) nThreads)], SIGUSR1);
    }
    return x;
}
/* a wait is over when it says so; an interrupted one has taken nothing */
static int semWait(ggc_sem_t *s)
{
    int r;
    for (;;) {
        errno = 0;
        r = ggc_sem_wait(s);
        if (!r || errno != EINTR) return r;
        if (r != -1) vh_viol("result", "an interrupted ggc_sem_wait returned %d", r);
        __atomic_fetch_add(&interruptions, 1, __ATOMIC_RELAXED);
    }
}
static const char *describe(void)
{
    static char buf[400]; int n = snprintf(buf, sizeof buf, " threads at:"); long i;
    for (i = 0; i < nThreads && n < 380; i++) n += snprintf(buf + n, sizeof buf - (size_t) n, " %s", opName[curOp[i]]);
    return buf;
}
#define WAITING(x) do { __atomic_fetch_add(&waiting, 1, __ATOMIC_RELAXED); x; __atomic_fetch_sub(&waiting, 1, __ATOMIC_RELAXED); } while (0)

/* what is done with a mutex in one's hands */
static void critical(int me, int m, vh_rng *R, int n)
{
    int was = __atomic_exchange_n(&owner[m], me + 1, __ATOMIC_RELAXED);
    if (was) vh_viol("exclusion", "thread %d has mutex %d, which thread %d has too", me, m, was - 1);
    if (guarded[m][0] != guarded[m][1]) vh_viol("exclusion", "what mutex %d guards was seen half-changed", m);
    guarded[m][0]++;
    while (n-- > 0) switch (vh_below(R, 4)) {
        case 0: junk(20); break;
        case 1: GGC_YIELD(); break;
        case 2: if (vh_pct(R, 20)) collect(); break;
        default: { struct timespec ts = { 0, (long) vh_below(R, 30000) }; nanosleep(&ts, NULL); break; }
    }
    guarded[m][1]++;
    __atomic_fetch_add(&guardedAtomic[m], 1, __ATOMIC_RELAXED);
    was = __atomic_exchange_n(&owner[m], 0, __ATOMIC_RELAXED);
    if (was != me + 1) vh_viol("exclusion", "thread %d took mutex %d from thread %d", was - 1, m, me);
}

static void endGroup(int g)
{
    if (ggc_barrier_destroy(groups[g])) vh_viol("result", "ggc_barrier_destroy failed");
    memset((void *) groups[g], 0xA5, sizeof *groups[g]); vh_free(groups[g]); groups[g] = NULL;
}

static void workerMain(GGC_ThreadArg arg)
{
    int me = (int) (ggc_size_t) GGC_RD(arg, darg); vh_rng R; Obj mine = NULL, fresh = NULL; ggc_size_t base = 1000000 * (ggc_size_t) (me + 1); long ph, n; int k, r; long t0;
    ggc_thread_t th[3]; Child *ch[3]; int nch = 0; ggc_size_t freshBase = 0;
    GGC_PUSH_3(arg, mine, fresh);
    R.s = (uint64_t) seed * 1000003 + (uint64_t) me;
    mine = makeChain(base);
    for (ph = 0; ph < nPhases; ph++) {
        for (n = 0; n < nOps; n++) {
            __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
            junk((int) vh_below(&R, 12));
            if (vh_pct(&R, (unsigned) colPct)) collect();
            if (vh_pct(&R, 20)) { freshBase = base + 1000 * (ggc_size_t) (1 + vh_below(&R, 900)); fresh = makeChain(freshBase); }
            switch (vh_below(&R, 12)) {
                case 0: case 1: case 2:                 /* a mutex */
                    k = (int) vh_below(&R, NM); curOp[me] = 1;
                    t0 = tick();
                    WAITING(r = ggc_mutex_lock(&mutexes[k]));
                    if (r) vh_viol("result", "ggc_mutex_lock: %d, errno %d", r, errno);
                    rec(me, E_LOCK, k, 0, t0, tick());
                    critical(me, k, &R, (int) vh_below(&R, 4));
                    t0 = tick();
                    if (ggc_mutex_unlock(&mutexes[k])) vh_viol("result", "ggc_mutex_unlock failed");
                    rec(me, E_UNLOCK, k, 0, t0, tick());
                    break;
                case 3:
                    k = (int) vh_below(&R, NM); curOp[me] = 2;
                    t0 = tick();
                    if (ggc_mutex_trylock(&mutexes[k])) { __atomic_fetch_add(&contended, 1, __ATOMIC_RELAXED); break; }
                    rec(me, E_TRY, k, 0, t0, tick());
                    critical(me, k, &R, (int) vh_below(&R, 3));
                    t0 = tick();
                    if (ggc_mutex_unlock(&mutexes[k])) vh_viol("result", "ggc_mutex_unlock failed");
                    rec(me, E_UNLOCK, k, 0, t0, tick());
                    break;
                case 4: case 5: {                       /* permits */
                    long used;
                    k = (int) vh_below(&R, NS); curOp[me] = 3;
                    t0 = tick();
                    WAITING(r = semWait(&permits[k]));
                    if (r) vh_viol("result", "ggc_sem_wait: %d, errno %d", r, errno);
                    rec(me, E_WAIT, k, 0, t0, tick());
                    used = __atomic_add_fetch(&permitUsed[k], 1, __ATOMIC_RELAXED);
                    if (used > permitCount[k]) vh_viol("semaphore", "%ld hold a permit of %ld", used, permitCount[k]);
                    junk(15); if (vh_pct(&R, 10)) collect();
                    if (vh_pct(&R, 40)) { struct timespec ts = { 0, (long) vh_below(&R, 60000) }; WAITING(ggc_pre_blocking(); nanosleep(&ts, NULL); ggc_post_blocking()); }
                    __atomic_fetch_sub(&permitUsed[k], 1, __ATOMIC_RELAXED);
                    t0 = tick();
                    if (ggc_sem_post(&permits[k])) vh_viol("result", "ggc_sem_post failed");
                    rec(me, E_POST, k, 0, t0, tick());
                    break; }
                case 6: {                               /* tokens: more posts than waits, so nobody waits forever */
                    long i, post = 1 + (long) vh_below(&R, 3), take = (long) vh_below(&R, (uint64_t) post + 1);
                    k = (int) vh_below(&R, NT); curOp[me] = 4;
                    for (i = 0; i < post; i++) {
                        t0 = tick();
                        __atomic_fetch_add(&tokensPosted[k], 1, __ATOMIC_RELAXED);
                        if (ggc_sem_post(&tokens[k])) vh_viol("result", "ggc_sem_post failed");
                        rec(me, E_POST, NS + k, 0, t0, tick());
                    }
                    junk(10);
                    for (i = 0; i < take; i++) {
                        t0 = tick();
                        WAITING(r = semWait(&tokens[k]));
                        if (r) vh_viol("result", "ggc_sem_wait: %d, errno %d", r, errno);
                        rec(me, E_WAIT, NS + k, 0, t0, tick());
                        __atomic_fetch_add(&tokensTaken[k], 1, __ATOMIC_RELAXED);
                    }
                    break; }
                case 7: case 8:                         /* threads */
                    if (nch < 3) { curOp[me] = 6; if (spawn(me, me, &th[nch], &ch[nch])) nch++; }
                    else goto join;
                    break;
                case 9: join:
                    if (!nch) break;
                    curOp[me] = 7; nch--;
                    t0 = tick();
                    WAITING(r = ggc_thread_join(th[nch]));
                    if (r) vh_viol("result", "ggc_thread_join: %d, errno %d", r, errno);
                    rec(me, E_JOIN, (int) (ch[nch] - children), 0, t0, tick());
                    if (ch[nch]->runs != 1 || ch[nch]->value != ch[nch]->no * 7 + 1) vh_viol("join", "a joined thread ran %d times and left %ld", ch[nch]->runs, ch[nch]->value);
                    break;
                case 10: {                              /* waiting by other means */
                    struct timespec ts = { 0, (long) vh_below(&R, 150000) };
                    curOp[me] = 8;
                    WAITING(ggc_pre_blocking(); nanosleep(&ts, NULL); ggc_post_blocking());
                    break; }
                default: GGC_YIELD(); ggc_thread_relax(); break;
            }
            if (fresh) checkChain(fresh, freshBase, "thread that waited, new objects");
            checkChain(mine, base, "thread that waited");
        }
        /* everybody meets; one rearranges the groups; everybody meets again */
        for (r = 0; r < 2; r++) {
            curOp[me] = 9;
            WAITING(k = ggc_barrier_wait(&phaseBarrier));
            if (k) vh_viol("result", "ggc_barrier_wait: %d, errno %d", k, errno);
            __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
            if (r == 0 && me == (int) (ph % nThreads)) {
                long g, i;
                for (g = 0; g < nGroups; g++) if (groups[g]) endGroup((int) g);
                nGroups = 1 + (long) vh_below(&R, MAXG); if (nGroups > nThreads) nGroups = nThreads;
                groupRounds = 1 + (long) vh_below(&R, 8);
                memset((void *) arrived, 0, sizeof arrived); memset(groupSize, 0, sizeof groupSize);
                for (i = 0; i < nThreads; i++) { g = i < nGroups ? i : (long) vh_below(&R, (uint64_t) nGroups); groupOf[i] = (int) g; groupSize[g]++; }
                for (g = 0; g < nGroups; g++) {
                    groups[g] = (ggc_barrier_t *) vh_malloc(sizeof *groups[g]); killer[g] = (int) vh_below(&R, (uint64_t) groupSize[g]);
                    for (i = 0; groupOf[i] != g || killer[g]-- > 0; i++);
                    killer[g] = (int) i;
                    if (ggc_barrier_init(groups[g], (unsigned) groupSize[g])) vh_viol("result", "ggc_barrier_init failed");
                }
            }
        }
        /* rounds of each group by itself, one right after the other */
        {
            int g = groupOf[me]; long rounds = groupRounds;
            curOp[me] = 5;
            for (n = 0; n < rounds; n++) {
                if (vh_pct(&R, 30)) junk((int) vh_below(&R, 40));
                if (vh_pct(&R, 5)) collect();
                plainOf[me] = ph * 8 + n;               /* no atomics: the barrier orders it */
                __atomic_fetch_add(&arrived[g][n], 1, __ATOMIC_RELAXED);
                t0 = tick();
                WAITING(r = ggc_barrier_wait(groups[g]));
                if (r) vh_viol("result", "ggc_barrier_wait: %d, errno %d", r, errno);
                rec(me, E_ARRIVE, g, (int) (ph * 8 + n), t0, tick());
                if (__atomic_load_n(&arrived[g][n], __ATOMIC_RELAXED) != groupSize[g])
                    vh_viol("barrier", "left a barrier for %d when %ld had arrived", groupSize[g], arrived[g][n]);
                for (k = 0; k < nThreads; k++) if (groupOf[k] == g && plainOf[k] != ph * 8 + n) vh_viol("barrier", "what thread %d wrote before the barrier is not seen after it", k);
                /* a second time, so that nobody writes while others read */
                WAITING(r = ggc_barrier_wait(groups[g]));
                if (r) vh_viol("result", "ggc_barrier_wait: %d, errno %d", r, errno);
                __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
                checkChain(mine, base, "thread that waited for a barrier");
            }
            /* whoever has left a barrier for the last time may do away with it,
             * though others be still on their way out */
            if (!TSAN && killer[g] == me) endGroup(g);
        }
    }
    curOp[me] = 7;
    while (nch) {
        nch--; t0 = tick();
        if (ggc_thread_join(th[nch])) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
        rec(me, E_JOIN, (int) (ch[nch] - children), 0, t0, tick());
        if (ch[nch]->runs != 1 || ch[nch]->value != ch[nch]->no * 7 + 1) vh_viol("join", "a joined thread ran %d times and left %ld", ch[nch]->runs, ch[nch]->value);
    }
    curOp[me] = 10;
    __atomic_fetch_add(&ended, 1, __ATOMIC_RELAXED);
    GGC_POP();
}

/* ---- judging the records ---- */
static int cmpEv(const void *a, const void *b) { const Ev *x = (const Ev *) a, *y = (const Ev *) b; return x->after < y->after ? -1 : x->after > y->after; }
static int cmpBefore(const void *a, const void *b) { const Ev *x = (const Ev *) a, *y = (const Ev *) b; return x->before < y->before ? -1 : x->before > y->before; }
static void judge(void)
{
    long i, j, k; Ev *es; long n; long contendedLocks = 0, waitsDelayed = 0, rounds = 0, late = 0;
    for (i = 0; i <= nThreads; i++) nAll += logs[i].n;
    all = (Ev *) vh_calloc((size_t) nAll + 1, sizeof *all); es = (Ev *) vh_calloc((size_t) nAll + 1, sizeof *es);
    for (i = n = 0; i <= nThreads; i++) { if (logs[i].n) memcpy(all + n, logs[i].e, (size_t) logs[i].n * sizeof *all); n += logs[i].n; }
    /* mutexes: held from after getting it until before giving it up, by one at a time */
    for (k = 0; k < NM; k++) {
        for (i = n = 0; i < nAll; i++) if (all[i].obj == k && (all[i].kind == E_LOCK || all[i].kind == E_TRY || all[i].kind == E_UNLOCK)) es[n++] = all[i];
        /* the moment that counts: of a lock, its end; of an unlock, its beginning */
        for (i = 0; i < n; i++) if (es[i].kind == E_UNLOCK) es[i].after = es[i].before;
        qsort(es, (size_t) n, sizeof *es, cmpEv);
        for (i = 0; i < n; i++) {
            int lock = es[i].kind != E_UNLOCK;
            if (lock != (i % 2 == 0)) vh_viol("exclusion", "mutex %ld: two holders in the record", k);
            if (!lock && es[i].thread != es[i - 1].thread) vh_viol("exclusion", "mutex %ld: unlocked by another thread in the record", k);
            if (lock && i && es[i].before < es[i - 1].after) contendedLocks++;
        }
        vh_stat("holds", n / 2);
        if (guarded[k][0] != n / 2 || guarded[k][1] != n / 2) vh_viol("exclusion", "mutex %ld: taken %ld times, counted %ld", k, n / 2, guarded[k][0]);
    }
    /* semaphores: at no time have more waits ended than posts begun */
    for (k = 0; k < NS + NT; k++) {
        long value = k < NS ? permitCount[k] : tokensInit[k - NS], low = value;
        for (i = n = 0; i < nAll; i++) if (all[i].obj == k && (all[i].kind == E_WAIT || all[i].kind == E_POST)) es[n++] = all[i];
        for (i = 0; i < n; i++) { if (es[i].kind == E_POST) es[i].after = es[i].before; else if (es[i].after - es[i].before > nThreads * 2) waitsDelayed++; }
        qsort(es, (size_t) n, sizeof *es, cmpEv);
        for (i = 0; i < n; i++) {
            value += es[i].kind == E_POST ? 1 : -1;
            if (value < low) low = value;
            if (value < 0) vh_viol("semaphore", "semaphore %ld: more waits had ended than posts begun", k);
        }
        vh_distinct("semaphore_low", vh_hash((uint64_t) low, (uint64_t) k));
        vh_stat("semaphore_operations", n);
    }
    /* barriers: in each round, everybody came before anybody left */
    for (i = n = 0; i < nAll; i++) if (all[i].kind == E_ARRIVE) es[n++] = all[i];
    qsort(es, (size_t) n, sizeof *es, cmpBefore);
    for (i = 0; i < n; i++) {
        if (es[i].thread < 0) continue;
        rounds++;
        for (j = i + 1; j < n && j < i + 4096; j++) if (es[j].thread >= 0 && es[j].obj == es[i].obj && es[j].round == es[i].round) {
            if (es[j].before > es[i].after) vh_viol("barrier", "round %d: thread %d left before thread %d came", es[i].round, es[i].thread, es[j].thread);
            if (es[i].before > es[j].after) vh_viol("barrier", "round %d: thread %d left before thread %d came", es[i].round, es[j].thread, es[i].thread);
        }
    }
    /* threads: created before they begin, over when joined */
    for (i = 0; i < nAll; i++) {
        Child *c = &children[all[i].obj];
        if (all[i].kind == E_CREATE && c->firstTicket < all[i].before) vh_viol("thread", "a thread ran before it was created");
        if (all[i].kind == E_CREATE && c->firstTicket > all[i].after) late++;
        if (all[i].kind == E_JOIN && all[i].after < c->lastTicket) vh_viol("join", "joined before the thread was over");
    }
    vh_stat("waits", contendedLocks + waitsDelayed + rounds); vh_stat("contended_locks", contendedLocks); vh_stat("delayed_waits", waitsDelayed);
    vh_stat("barrier_arrivals", rounds); vh_stat("threads_joined", childRuns); vh_stat("started_after_create", late); vh_stat("events", nAll);
    vh_free(all); vh_free(es);
}

int main(int argc, char **argv)
{
    long i; ggc_thread_t *th = workers; pthread_t pestThread; long signals; vh_rng R; Obj mine = NULL; GGC_ThreadArg a = NULL;
    vh_init(argc, argv);
    seed = vh_arg("seed", 1); nThreads = vh_arg("threads", 4); nPhases = vh_arg("phases", 4); nOps = vh_arg("ops", 60); colPct = vh_arg("collect", 6);
    vh_junk = (int) vh_arg("junk", 1); vh_delayPct = (int) vh_arg("delay", 0); vh_failThread = 0;
    if (nThreads > MAXT) nThreads = MAXT;
    R.s = (uint64_t) seed * 77 + 5;
    {
        static const ggc_mutex_t unlocked = GGC_MUTEX_INITIALIZER;
        for (i = 2; i < NM; i++) mutexes[i] = unlocked;
    }
    for (i = 0; i < NS; i++) { permitCount[i] = 1 + (long) vh_below(&R, 3); if (ggc_sem_init(&permits[i], (unsigned) permitCount[i])) vh_viol("result", "ggc_sem_init failed"); }
    for (i = 0; i < NT; i++) { tokensInit[i] = (long) vh_below(&R, 3); if (ggc_sem_init(&tokens[i], (unsigned) tokensInit[i])) vh_viol("result", "ggc_sem_init failed"); }
    if (ggc_barrier_init(&phaseBarrier, (unsigned) nThreads)) vh_viol("result", "ggc_barrier_init failed");
    vh_watchStart(&progress, vh_arg("wd", 25), describe);
    {
        GGC_PUSH_2(mine, a);
        mine = makeChain(7000);
        for (i = 0; i < nThreads; i++) {
            void *darg = (void *) (ggc_size_t) i;
            a = GGC_NEW(GGC_ThreadArg); GGC_WD(a, darg, darg);
            if (ggc_thread_create(&th[i], workerMain, a)) vh_bug("could not start the workers");
        }
        vh_failThread = vh_arg("failthread", 0);
        signals = vh_arg("signals", 0);
        if (signals) {
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onUsr1; sigaction(SIGUSR1, &sa, NULL);
            if (pthread_create(&pestThread, NULL, pest, NULL)) vh_bug("pthread_create");
            /* threads are not joined, and so can be signalled, until it is over */
            ggc_pre_blocking();
            while (__atomic_load_n(&ended, __ATOMIC_RELAXED) < nThreads) { struct timespec ts = { 0, 1000000 }; nanosleep(&ts, NULL); }
            ggc_post_blocking();
            pestStop = 1; pthread_join(pestThread, NULL);
            vh_stat("signals_handled", handled); vh_stat("interrupted_waits", interruptions);
        }
        for (i = 0; i < nThreads; i++) { int r; r = ggc_thread_join(th[i]); if (r) vh_viol("result", "ggc_thread_join failed, errno %d", errno); }
        collect(); checkChain(mine, 7000, "thread that waited for all others");
        /* what is left in the semaphores is what was posted and not taken */
        for (i = 0; i < NS + NT; i++) {
            ggc_sem_t *s = i < NS ? &permits[i] : &tokens[i - NS]; long left = i < NS ? permitCount[i] : tokensInit[i - NS] + tokensPosted[i - NS] - tokensTaken[i - NS], k;
            curOp[0] = 4;
            for (k = 0; k < left; k++) if (ggc_sem_wait(s)) vh_viol("result", "ggc_sem_wait failed, errno %d", errno);
#if defined(GGGGC_THREADS_POSIX)
            { int v = -1; sem_getvalue(s, &v); if (v != 0) vh_viol("semaphore", "semaphore %ld holds %d more than was posted", i, v); }
#endif
            if (ggc_sem_destroy(s)) vh_viol("result", "ggc_sem_destroy failed");
        }
        for (i = 0; i < NM; i++) {
            if (ggc_mutex_trylock(&mutexes[i])) vh_viol("exclusion", "mutex %ld is still taken", i);
            if (ggc_mutex_unlock(&mutexes[i])) vh_viol("result", "ggc_mutex_unlock failed");
            if (guarded[i][0] != guardedAtomic[i]) vh_viol("exclusion", "mutex %ld: %ld holds, counted %ld", i, guardedAtomic[i], guarded[i][0]);
        }
        if (ggc_barrier_destroy(&phaseBarrier)) vh_viol("result", "ggc_barrier_destroy failed");
        checkChain(mine, 7000, "thread that waited for all others");
        GGC_POP();
    }
    vh_watchStop();
    judge();
    vh_stat("collections", collections); vh_stat("collections_while_waiting", collWhileWaiting); vh_stat("operations", progress); vh_stat("spawn_refused", refused);
    vh_sample("%ld threads, %ld phases of %ld operations, delay %d%%: %ld events, %ld collections of which %ld while somebody waited", nThreads, nPhases, nOps, vh_delayPct, nAll, collections, collWhileWaiting);
    vh_done();
    return 0;
}
#endif
