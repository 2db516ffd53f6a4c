/* Monitors for several threads. Every object describes itself (identity,
 * identities of what it refers to, a checksum, a data array computed from its
 * identity), and threads keep what they should find outside the collected
 * heap, so any thread can tell whether what it reads is what was written.
 *
 * profiles: mixed (everything), block (blocked threads), churn (threads that
 * start and end), first (first uses of types and sizes at the same moment),
 * queue (messages: each received once, in order), results (return values of
 * the wrapped calls). */
#include "vh.h"
#include "ggggc/gc.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

#ifdef __cplusplus
extern "C" {
#endif
size_t vh_poolBytes = GGGGC_POOL_BYTES;
#ifdef __cplusplus
}
#endif

#define W sizeof(ggc_size_t)
#define POOLCAP ((GGGGC_POOL_BYTES - offsetof(struct GGGGC_Pool, start)) / W)
#define NOSAN
#define TSAN 0
#if defined(__SANITIZE_THREAD__)
#undef NOSAN
#undef TSAN
#define TSAN 1
#define NOSAN __attribute__((no_sanitize("thread"), noinline))
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#undef NOSAN
#undef TSAN
#define TSAN 1
#define NOSAN __attribute__((no_sanitize("thread"), noinline))
#endif
#endif

#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifndef ASAN
#define ASAN 0
#endif

GGC_TYPE(Node)
    GGC_MDATA(ggc_size_t, id);
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, aId);
    GGC_MPTR(Node, b);
    GGC_MDATA(ggc_size_t, bId);
    GGC_MDATA(ggc_size_t, depth);
    GGC_MPTR(GGC_size_t_Array, data);
    GGC_MDATA(ggc_size_t, len);
    GGC_MDATA(ggc_size_t, sum);
GGC_END_TYPE(Node,
    GGC_PTR(Node, a)
    GGC_PTR(Node, b)
    GGC_PTR(Node, data)
    )

/* a place that any thread may change, under its lock */
GGC_TYPE(Tiny)
    GGC_MDATA(ggc_size_t, a);
    GGC_MDATA(ggc_size_t, b);
GGC_END_TYPE(Tiny,
    GGC_NO_PTRS
    )

GGC_TYPE(Cell)
    GGC_MDATA(ggc_size_t, no);
    GGC_MPTR(Node, n);
    GGC_MDATA(ggc_size_t, nId);
GGC_END_TYPE(Cell,
    GGC_PTR(Cell, n)
    )

#define MAXT 24
#define NR 6
#define NH 16
#define NBOX 12
#define NCELL 8
#define NSLOT 64
#define MAXDEPTH 5
#define NKEEP 96

/* roots */
static NodeArray box, keep;
static CellArray cells;
static Cell cell0;
static ggc_size_t boxId[NBOX], keepId[NKEEP];
static ggc_mutex_t boxLock = GGC_MUTEX_INITIALIZER, keepLock = GGC_MUTEX_INITIALIZER;
static ggc_mutex_t cellLock[NCELL];
static struct GGGGC_DescriptorSlot slots[NSLOT];

static long seed, nthreads, nops, phases;
static int useSpawn = 1, useBlock = 1, useFirst = 1, useQueue = 1, collectPct = 2;
static volatile long progress, collects, spawned, spawnFailed, liveChildren, arrived;
static volatile long curOp[MAXT + 1];
#define RLX(x) __atomic_load_n(&(x), __ATOMIC_RELAXED)
#define OPOF(i, o) __atomic_store_n(&curOp[i], (o), __ATOMIC_RELAXED)
#define OP(o) OPOF(t->no, o)
static volatile ggc_size_t nextId = 1;
static ggc_barrier_t phaseBarrier;

enum { O_NONE, O_ALLOC, O_HOLD, O_LOAD, O_PUBLISH, O_FETCH, O_CELL, O_CHECK, O_JUNK, O_COLLECT,
       O_YIELD, O_BLOCK, O_SEND, O_RECV, O_SPAWN, O_STILL, O_SLOT, O_SIZE, O_BARRIER, O_JOIN, O_END, O_MAIN, O_FIN, O_HOARD };

typedef struct {
    vh_rng R; int no;
    ggc_size_t id[NR], hid[NH];
    Node *r;
    NodeArray *holder;
    void *lastAddr;
#ifdef GGGGC_FEATURE_JITPSTACK
    void **jit; ggc_size_t jitId[4]; ggc_size_t jitData;
#endif
} Th;

static ggc_size_t h3(ggc_size_t a, ggc_size_t b, ggc_size_t c) { return vh_hash(vh_hash(vh_hash(1, a), b), c) >> 1; }

#ifdef GGGGC_FEATURE_FINALIZERS
#define MAXFIN (1 << 20)
static unsigned char finState[MAXFIN]; /* 1: attached, 2: ran */
static volatile long finAttached, finRan;
static void finalizer(void *obj);
#endif

static void checkNode(Node n, ggc_size_t want, const char *where)
{
    ggc_size_t i, id, len;
    struct GGGGC_Descriptor *d;
    if (!n) { if (want) vh_viol("lost", "%s: null, expected object #%lu", where, (unsigned long) want); return; }
    if (!want) vh_viol("resurrected", "%s: %p, expected null", where, (void *) n);
    if ((ggc_size_t) n % W || !vh_inPool(n)) vh_viol("wild-pointer", "%s: %p, expected object #%lu", where, (void *) n, (unsigned long) want);
    d = n->header.descriptor__ptr;
    if ((ggc_size_t) d % W || !vh_inPool(d)) vh_viol("type-damaged", "%s: object #%lu has type %p", where, (unsigned long) want, (void *) d);
    if (d->size != sizeof(*n) / W) vh_viol("type-damaged", "%s: object #%lu has %lu words", where, (unsigned long) want, (unsigned long) d->size);
    id = GGC_RD(n, id);
    if (id != want) vh_viol("wrong-object", "%s: #%lu, expected #%lu", where, (unsigned long) id, (unsigned long) want);
    len = GGC_RD(n, len);
    if (GGC_RD(n, sum) != h3(id, h3(GGC_RD(n, aId), GGC_RD(n, bId), GGC_RD(n, depth)), len))
        vh_viol("data-changed", "%s: object #%lu", where, (unsigned long) want);
    if (GGC_RP(n, data)) {
        GGC_size_t_Array a = GGC_RP(n, data);
        if ((ggc_size_t) a % W || !vh_inPool(a)) vh_viol("wild-pointer", "%s: array %p of object #%lu", where, (void *) a, (unsigned long) want);
        if (a->length != len) vh_viol("length-changed", "%s: array of object #%lu: %lu, expected %lu", where, (unsigned long) want, (unsigned long) a->length, (unsigned long) len);
        for (i = 0; i < len; i++)
            if (GGC_RAD(a, i) != h3(id, i, 5)) vh_viol("data-changed", "%s: word %lu of array of object #%lu", where, (unsigned long) i, (unsigned long) want);
    } else if (len) vh_viol("lost", "%s: array of object #%lu", where, (unsigned long) want);
}

/* walk a little of what n refers to */
static void walk(Th *t, Node n, ggc_size_t want, int steps, const char *where)
{
    Node stack[2 * MAXDEPTH + 4]; ggc_size_t wants[2 * MAXDEPTH + 4]; int n_ = 0;
    stack[n_] = n; wants[n_++] = want;
    while (n_ && steps-- > 0) {
        Node c = stack[--n_]; ggc_size_t w = wants[n_];
        checkNode(c, w, where);
        if (!c) continue;
        vh_stat("visits", 1);
        if (n_ + 2 > 2 * MAXDEPTH + 3) continue;
        if (vh_pct(&t->R, 50)) {
            stack[n_] = GGC_RP(c, a); wants[n_++] = GGC_RD(c, aId);
            stack[n_] = GGC_RP(c, b); wants[n_++] = GGC_RD(c, bId);
        } else {
            stack[n_] = GGC_RP(c, b); wants[n_++] = GGC_RD(c, bId);
            stack[n_] = GGC_RP(c, a); wants[n_++] = GGC_RD(c, aId);
        }
    }
}

static NOSAN void storeHold(NodeArray h, ggc_size_t i, Node n) { GGC_WAP(h, i, n); }
static NOSAN void storeCell(Cell c, Node n, ggc_size_t id) { GGC_WP(c, n, n); GGC_WD(c, nId, id); }
static NOSAN void initNode(Node n, Node a, Node b, GGC_size_t_Array d, ggc_size_t id, ggc_size_t aId, ggc_size_t bId, ggc_size_t depth, ggc_size_t len)
{
    ggc_size_t sum = h3(id, h3(aId, bId, depth), len);
    GGC_WD(n, id, id);
    GGC_WD(n, aId, aId); GGC_WD(n, bId, bId);
    GGC_WD(n, depth, depth); GGC_WD(n, len, len);
    GGC_WD(n, sum, sum);
    GGC_WP(n, a, a); GGC_WP(n, b, b); GGC_WP(n, data, d);
}

static void moved(Th *t)
{
    void *p = (void *) *t->holder;
    if (p != t->lastAddr) {
        uint64_t h = 7; long i, k = 0;
        for (i = 0; i <= nthreads && i <= MAXT; i++) { h = vh_hash(h, (uint64_t) RLX(curOp[i])); k += RLX(curOp[i]) != O_NONE; }
        if (t->lastAddr) { vh_stat("moves_seen", 1); vh_distinct("world", h); }
        t->lastAddr = p;
    }
}

static Node newNode(Th *t, int i, int j)
{
    Node n = NULL, a = NULL, b = NULL; GGC_size_t_Array d = NULL;
    ggc_size_t aId = 0, bId = 0, depth = 0, id, k, len;
    GGC_PUSH_4(n, a, b, d);
    if (i >= 0 && t->r[i] && GGC_RD(t->r[i], depth) < MAXDEPTH) { a = t->r[i]; aId = t->id[i]; depth = GGC_RD(a, depth) + 1; }
    if (j >= 0 && t->r[j] && GGC_RD(t->r[j], depth) < MAXDEPTH) { b = t->r[j]; bId = t->id[j]; if (GGC_RD(b, depth) + 1 > depth) depth = GGC_RD(b, depth) + 1; }
    len = vh_pct(&t->R, 15) ? vh_below(&t->R, 60) : vh_below(&t->R, 5);
    id = __atomic_fetch_add(&nextId, 1, __ATOMIC_RELAXED);
    if (len) {
        d = GGC_NEW_DA(size_t, len);
        for (k = 0; k < len; k++) {
            ggc_size_t v;
            if (GGC_RAD(d, k)) vh_viol("not-zeroed", "new array: word %lu", (unsigned long) k);
            v = h3(id, k, 5);
            GGC_WAD(d, k, v);
        }
    }
    n = GGC_NEW(Node);
    for (k = 1; k < sizeof(*n) / W; k++)
        if (((ggc_size_t *) n)[k]
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
            && k != 1
#endif
            ) vh_viol("not-zeroed", "new object: word %lu", (unsigned long) k);
    initNode(n, a, b, d, id, aId, bId, depth, len);
#ifdef GGGGC_FEATURE_FINALIZERS
    if (id < MAXFIN && vh_pct(&t->R, 6)) {
        __atomic_store_n(&finState[id], 1, __ATOMIC_RELAXED);
        __atomic_fetch_add(&finAttached, 1, __ATOMIC_RELAXED);
        GGC_FINALIZE(n, finalizer);
    }
#endif
    return n;
}

#ifdef GGGGC_FEATURE_FINALIZERS
static void finalizer(void *obj)
{
    Node n = (Node) obj; ggc_size_t id, aId; int was;
    GGC_PUSH_1(n);
    id = GGC_RD(n, id);
    checkNode(n, id, "in its finalizer");
    if (id >= MAXFIN) vh_viol("finalizer-object", "finalizer of object #%lu", (unsigned long) id);
    was = __atomic_exchange_n(&finState[id], 2, __ATOMIC_RELAXED);
    if (was != 1) vh_viol("finalizer-count", "finalizer of object #%lu %s", (unsigned long) id, was == 2 ? "ran twice" : "never attached");
    __atomic_fetch_add(&finRan, 1, __ATOMIC_RELAXED);
    aId = GGC_RD(n, aId);
    checkNode(GGC_RP(n, a), aId, "referred to by a finalized object");
    if (id % 3 == 0) { /* finalizers may allocate and collect */
        GGC_size_t_Array d = GGC_NEW_DA(size_t, 20 + id % 64);
        (void) d;
        if (id % 30 == 0) GGC_COLLECT();
        checkNode(n, id, "in its finalizer, after allocating");
    }
    GGC_POP();
}
#endif

/* nothing may change between two safe points */
static void still(Th *t)
{
    void *addr[NR]; ggc_size_t img[NR][sizeof(struct Node__ggggc_struct) / W]; int i; ggc_size_t k;
    volatile long spin = (long) vh_below(&t->R, 4000);
    for (i = 0; i < NR; i++) {
        addr[i] = (void *) t->r[i];
        if (addr[i]) for (k = 0; k < sizeof(img[0]) / W; k++) img[i][k] = ((ggc_size_t *) addr[i])[k];
    }
    if (vh_pct(&t->R, 30)) sched_yield();
    while (spin-- > 0);
    if (vh_pct(&t->R, 10)) { struct timespec ts = { 0, 100000 }; nanosleep(&ts, NULL); }
    for (i = 0; i < NR; i++) {
        if (addr[i] != (void *) t->r[i]) vh_viol("moved-while-running", "root %d of thread %d changed between safe points", i, t->no);
        if (addr[i]) for (k = 0; k < sizeof(img[0]) / W; k++)
            if (img[i][k] != ((ggc_size_t *) addr[i])[k])
                vh_viol("changed-while-running", "word %lu of object #%lu changed between safe points", (unsigned long) k, (unsigned long) t->id[i]);
    }
    vh_stat("still_checks", 1);
}

/* messages */
#define QLEN 8
static NodeArray queue;
static ggc_size_t queueId[QLEN];
static int qHead, qTail;
static ggc_sem_t qFree, qUsed;
static ggc_mutex_t qLock = GGC_MUTEX_INITIALIZER;
static volatile long sent, received;
static unsigned char *recvSeen; static long recvMax;

static void send(Th *t, int i)
{
    Node n; NodeArray q;
    if (ggc_sem_wait(&qFree)) vh_viol("result", "ggc_sem_wait failed, errno %d", errno);
    if (ggc_mutex_lock(&qLock)) vh_viol("result", "ggc_mutex_lock failed, errno %d", errno);
    n = t->r[i]; q = queue;
    if (GGC_RAP(q, qTail)) vh_viol("queue", "slot %d is not empty", qTail);
    storeHold(q, qTail, n); queueId[qTail] = t->id[i];
    qTail = (qTail + 1) % QLEN;
    ggc_mutex_unlock(&qLock);
    if (ggc_sem_post(&qUsed)) vh_viol("result", "ggc_sem_post failed");
    __atomic_fetch_add(&sent, 1, __ATOMIC_RELAXED);
}
static void receive(Th *t, int i)
{
    Node nul = NULL; NodeArray q;
    if (ggc_sem_wait(&qUsed)) vh_viol("result", "ggc_sem_wait failed, errno %d", errno);
    if (ggc_mutex_lock(&qLock)) vh_viol("result", "ggc_mutex_lock failed, errno %d", errno);
    q = queue;
    t->r[i] = GGC_RAP(q, qHead); t->id[i] = queueId[qHead];
    storeHold(q, qHead, nul); queueId[qHead] = 0;
    qHead = (qHead + 1) % QLEN;
    ggc_mutex_unlock(&qLock);
    if (ggc_sem_post(&qFree)) vh_viol("result", "ggc_sem_post failed");
    walk(t, t->r[i], t->id[i], 6, "message");
    __atomic_fetch_add(&received, 1, __ATOMIC_RELAXED);
}

static void keepPut(ggc_size_t k, Node n, ggc_size_t id)
{
    NodeArray a;
    GGC_PUSH_1(n);
    if (ggc_mutex_lock(&keepLock)) vh_viol("result", "ggc_mutex_lock failed, errno %d", errno);
    a = keep;
    storeHold(a, k % NKEEP, n); keepId[k % NKEEP] = id;
    ggc_mutex_unlock(&keepLock);
    GGC_POP();
}
static void keepCheck(Th *t, ggc_size_t k)
{
    NodeArray a;
    if (ggc_mutex_lock(&keepLock)) vh_viol("result", "ggc_mutex_lock failed, errno %d", errno);
    a = keep;
    walk(t, GGC_RAP(a, k % NKEEP), keepId[k % NKEEP], 16, "left behind by an ended thread");
    ggc_mutex_unlock(&keepLock);
}

static void thInit(Th *t, Node *r, NodeArray *holder, int no, uint64_t s)
{
    memset(t, 0, sizeof *t);
    t->R.s = s; t->no = no; t->r = r; t->holder = holder;
}

#ifdef GGGGC_FEATURE_JITPSTACK
/* four pointers on the JIT stack of each thread, and something below it that
 * is none */
static void jitInit(Th *t)
{
    /* not every thread uses it */
    t->jit = NULL;
    if (vh_pct(&t->R, 30)) return;
    t->jit = (void **) vh_calloc(32, sizeof(void *));
    ggc_jitPointerStackEnd = t->jit + 32;
#ifndef GGGGC_FEATURE_EXTTAG
    ggc_jitPointerStack = t->jit + 28;
    t->jit[27] = (void *) (ggc_size_t) 0x1230;
#else
    {
        /* four pointers, then one word of data */
        unsigned char tags[W] = { 0, 2, 0, 0, 1, 0xFF, 0, 0 };
        ggc_jitPointerStack = t->jit + 26;
        memcpy(t->jit + 26, tags, W);
        t->jitData = vh_next(&t->R);
        t->jit[31] = (void *) t->jitData;
        t->jit[25] = (void *) (ggc_size_t) 0x1230;
    }
#endif
}
#ifndef GGGGC_FEATURE_EXTTAG
#define JITAT(t, i) ((t)->jit[28 + (i)])
#else
#define JITAT(t, i) ((t)->jit[27 + (i)])
#endif
static void jitOp(Th *t)
{
    int i = (int) vh_below(&t->R, 4), j = (int) vh_below(&t->R, NR);
    if (!t->jit) return;
#ifdef GGGGC_FEATURE_EXTTAG
    if (t->jit[31] != (void *) t->jitData) vh_viol("jit-data", "data on the JIT stack changed");
    if (t->jit[25] != (void *) (ggc_size_t) 0x1230) vh_viol("jit-below", "a word below the JIT stack changed");
#else
    if (t->jit[27] != (void *) (ggc_size_t) 0x1230) vh_viol("jit-below", "a word below the JIT stack changed");
#endif
    walk(t, (Node) JITAT(t, i), t->jitId[i], 4, "JIT stack");
    JITAT(t, i) = (void *) t->r[j]; t->jitId[i] = t->id[j];
    vh_stat("jit_ops", 1);
}
static void jitEnd(Th *t)
{
    if (!t->jit) return;
    ggc_jitPointerStack = ggc_jitPointerStackEnd = NULL;
    vh_free(t->jit); t->jit = NULL;
}
#else
#define jitInit(t)
#define jitOp(t)
#define jitEnd(t)
#endif

static void childMain(GGC_ThreadArg arg);
#define MAXCH 4

static void firstSlot(Th *t, int k)
{
    struct GGGGC_DescriptorSlot *s = &slots[k % NSLOT];
    ggc_size_t *o, i;
    o = (ggc_size_t *) GGC_NEW_FROM_DESCRIPTOR_SLOT(s);
    if (!s->descriptor || ((struct GGGGC_Header *) o)->descriptor__ptr != s->descriptor)
        vh_viol("wrong-type", "object of type slot %d has type %p, expected %p", k, (void *) ((struct GGGGC_Header *) o)->descriptor__ptr, (void *) s->descriptor);
    if (s->descriptor->size != s->size) vh_viol("type-damaged", "type slot %d: %lu words, expected %lu", k, (unsigned long) s->descriptor->size, (unsigned long) s->size);
#ifndef GGGGC_FEATURE_EXTTAG
    if ((s->descriptor->pointers[0] | 1) != (s->pointers | 1)) vh_viol("type-damaged", "type slot %d: pointers %lx, expected %lx", k, (unsigned long) s->descriptor->pointers[0], (unsigned long) s->pointers);
#endif
    for (i = sizeof(struct GGGGC_Header) / W; i < s->size; i++) if (o[i]) vh_viol("not-zeroed", "object of type slot %d: word %lu", k, (unsigned long) i);
    vh_stat("slot_uses", 1);
}

static void firstSize(Th *t, ggc_size_t n)
{
    GGC_voidpArray a; ggc_size_t i;
    a = GGC_NEW_PA(GGC_voidp, n);
    if (a->length != n) vh_viol("wrong-length", "new array");
    if (a->header.descriptor__ptr->size < n + 1 + sizeof(struct GGGGC_Header) / W) vh_viol("type-damaged", "array of %lu", (unsigned long) n);
    for (i = 0; i < n; i++) if (GGC_RAP(a, i)) vh_viol("not-zeroed", "new array of %lu: element %lu", (unsigned long) n, (unsigned long) i);
    vh_stat("size_uses", 1);
}

static void op(Th *t, ggc_thread_t *ch, int *nch)
{
    int i = (int) vh_below(&t->R, NR), j = (int) vh_below(&t->R, NR), k;
    unsigned p = (unsigned) vh_below(&t->R, 100);
    __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
    if (p < 34) {
        Node n;
        OP(O_ALLOC);
        n = newNode(t, i, vh_pct(&t->R, 60) ? j : -1);
        k = (int) vh_below(&t->R, NR);
        t->r[k] = n; t->id[k] = GGC_RD(n, id);
    } else if (p < 42) {
        NodeArray h = *t->holder; Node n = t->r[i];
        OP(O_HOLD); k = (int) vh_below(&t->R, NH);
        storeHold(h, k, n); t->hid[k] = t->id[i];
    } else if (p < 48) {
        NodeArray h = *t->holder;
        OP(O_LOAD); k = (int) vh_below(&t->R, NH);
        checkNode(GGC_RAP(h, k), t->hid[k], "private array");
        t->r[i] = GGC_RAP(h, k); t->id[i] = t->hid[k];
    } else if (p < 54) {
        OP(O_PUBLISH); k = (int) vh_below(&t->R, NBOX);
        if (ggc_mutex_lock(&boxLock)) vh_viol("result", "ggc_mutex_lock failed, errno %d", errno);
        { NodeArray b = box; Node n = t->r[i]; walk(t, GGC_RAP(b, k), boxId[k], 3, "shared array"); storeHold(b, k, n); boxId[k] = t->id[i]; }
        ggc_mutex_unlock(&boxLock);
    } else if (p < 60) {
        OP(O_FETCH); k = (int) vh_below(&t->R, NBOX);
        if (ggc_mutex_lock(&boxLock)) vh_viol("result", "ggc_mutex_lock failed, errno %d", errno);
        { NodeArray b = box; t->r[i] = GGC_RAP(b, k); t->id[i] = boxId[k]; }
        if (vh_pct(&t->R, 20)) { /* allocate with the lock */
            t->r[j] = newNode(t, i, -1); t->id[j] = GGC_RD(t->r[j], id);
        }
        ggc_mutex_unlock(&boxLock);
        walk(t, t->r[i], t->id[i], 6, "fetched from the shared array");
    } else if (p < 68) {
        Cell c;
        OP(O_CELL); k = (int) vh_below(&t->R, NCELL);
        if (vh_pct(&t->R, 50)) { while (ggc_mutex_trylock(&cellLock[k]) != 0) GGC_YIELD(); }
        else if (ggc_mutex_lock(&cellLock[k])) vh_viol("result", "ggc_mutex_lock failed, errno %d", errno);
        { CellArray cs = cells; c = GGC_RAP(cs, k); }
        if (GGC_RD(c, no) != (ggc_size_t) k) vh_viol("wrong-object", "shared cell %d", k);
        walk(t, GGC_RP(c, n), GGC_RD(c, nId), 4, "shared cell");
        if (vh_pct(&t->R, 50)) { Node n = t->r[i]; storeCell(c, n, t->id[i]); }
        else { t->r[i] = GGC_RP(c, n); t->id[i] = GGC_RD(c, nId); }
        ggc_mutex_unlock(&cellLock[k]);
    } else if (p < 74) {
        OP(O_CHECK);
        walk(t, t->r[i], t->id[i], 20, "local root");
        jitOp(t);
        if (vh_pct(&t->R, 20)) keepCheck(t, vh_below(&t->R, NKEEP));
    } else if (p < 80) {
        long n = 1 + (long) vh_below(&t->R, 8);
        OP(O_JUNK);
        while (n--) { GGC_char_Array a = GGC_NEW_DA(char, vh_below(&t->R, POOLCAP / 3 < 1000 ? POOLCAP / 3 * W : 4000)); (void) a; }
    } else if (p < 82) {
        if (vh_below(&t->R, 100) < (unsigned) collectPct * 10) {
            OP(O_COLLECT); GGC_COLLECT(); __atomic_fetch_add(&collects, 1, __ATOMIC_RELAXED);
        }
    } else if (p < 86) { OP(O_YIELD); GGC_YIELD(); if (vh_pct(&t->R, 30)) sched_yield(); }
    else if (p < 90) {
        if (useBlock) {
            long c0 = RLX(vh_barriers); int w = (int) vh_below(&t->R, 20);
            OP(O_BLOCK);
            ggc_pre_blocking();
            while (w-- && RLX(vh_barriers) < c0 + 7) { struct timespec ts = { 0, 50000 }; nanosleep(&ts, NULL); }
            ggc_post_blocking();
            if (RLX(vh_barriers) >= c0 + 3) vh_stat("blocked_through_collection", 1);
            for (k = 0; k < NR; k++) walk(t, t->r[k], t->id[k], 4, "root of a blocked thread");
            jitOp(t);
        }
    } else if (p < 92) {
        OP(O_STILL); still(t);
    } else if (p < 95) {
        if (useSpawn && ch && *nch < MAXCH) {
            GGC_ThreadArg a = NULL; void *darg; Node n; NodeArray pa = NULL; void *vp;
            GGC_PUSH_2(a, pa);
            OP(O_SPAWN);
            pa = GGC_NEW_PA(Node, 2);
            n = t->r[i]; storeHold(pa, 0, n);
            a = GGC_NEW(GGC_ThreadArg);
            vp = (void *) pa; GGC_WP(a, parg, vp);
            darg = (void *) (ggc_size_t) (t->id[i] * 2 + (vh_next(&t->R) & 1)); GGC_WD(a, darg, darg);
            __atomic_fetch_add(&spawned, 1, __ATOMIC_RELAXED);
            errno = 0;
            if (ggc_thread_create(&ch[*nch], childMain, a)) {
                if (!vh_failThread) vh_viol("result", "ggc_thread_create failed, errno %d", errno);
                if (errno != EAGAIN) vh_viol("result", "ggc_thread_create: errno %d, expected EAGAIN", errno);
                __atomic_fetch_add(&spawnFailed, 1, __ATOMIC_RELAXED);
            } else (*nch)++;
            GGC_POP();
        } else if (ch && *nch) {
            OP(O_JOIN);
            if (ggc_thread_join(ch[--*nch])) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
        }
    } else if (p < 97) {
        if (useFirst) { OP(O_SLOT); firstSlot(t, (int) vh_below(&t->R, NSLOT)); }
    } else {
        if (useFirst) { OP(O_SIZE); firstSize(t, vh_below(&t->R, POOLCAP / 3)); }
    }
    moved(t);
    OP(O_NONE);
}

static volatile long childNo;
static void childMain(GGC_ThreadArg arg)
{
    Node r[NR] = { NULL, NULL, NULL, NULL, NULL, NULL }; NodeArray holder = NULL, pa = NULL;
    Th th, *t = &th; long n, no = __atomic_fetch_add(&childNo, 1, __ATOMIC_RELAXED);
    ggc_size_t d = (ggc_size_t) GGC_RD(arg, darg);
    GGC_PUSH_9(r[0], r[1], r[2], r[3], r[4], r[5], holder, pa, arg);
    thInit(t, r, &holder, MAXT, (uint64_t) seed * 77777 + (uint64_t) no);
    pa = (NodeArray) GGC_RP(arg, parg);
    r[0] = GGC_RAP(pa, 0); t->id[0] = d / 2;
    checkNode(r[0], d / 2, "argument of a new thread");
    holder = GGC_NEW_PA(Node, NH);
    jitInit(t);
    n = (long) vh_below(&t->R, 60);
    if (d & 1) n += 200;
    while (n--) op(t, NULL, NULL);
    /* leave something behind */
    if (r[1]) keepPut(vh_below(&t->R, NKEEP), r[1], t->id[1]);
    r[2] = newNode(t, 3, 1);
    keepPut(vh_below(&t->R, NKEEP), r[2], GGC_RD(r[2], id));
    jitEnd(t);
    vh_stat("threads_ended", 1);
    GGC_POP();
}

/* all threads at once */
static void together(Th *t, long phase)
{
    long a;
    OP(O_BARRIER);
    a = __atomic_add_fetch(&arrived, 1, __ATOMIC_SEQ_CST);
    (void) a;
    errno = 0;
    if (ggc_barrier_wait(&phaseBarrier)) vh_viol("result", "ggc_barrier_wait failed, errno %d", errno);
    if (__atomic_load_n(&arrived, __ATOMIC_SEQ_CST) < nthreads * (phase + 1)) vh_viol("barrier", "passed with %ld of %ld threads", arrived, nthreads * (phase + 1));
    __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
    OP(O_NONE);
}

/* more than a pool of objects that only this thread refers to */
#define NHOARD (POOLCAP / 4)
static int hoardPct;
static void hoardCheck(NodeArray h, const ggc_size_t *ids, const char *where)
{
    ggc_size_t k;
    for (k = 0; k < NHOARD; k++) checkNode(GGC_RAP(h, k), ids[k], where);
    vh_stat("hoards_checked", 1);
}
static void hoardFill(Th *t, NodeArray *h, ggc_size_t *ids)
{
    ggc_size_t k, n;
    if (!*h) { memset(ids, 0, NHOARD * sizeof *ids); *h = GGC_NEW_PA(Node, NHOARD); n = NHOARD; }
    else n = vh_below(&t->R, NHOARD);
    while (n--) {
        Node c; NodeArray a;
        k = vh_below(&t->R, 100) < 60 ? n : vh_below(&t->R, NHOARD);
        c = newNode(t, -1, -1); a = *h;
        storeHold(a, k, c); ids[k] = GGC_RD(c, id);
        if (n % 64 == 0) __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
    }
}

static void workerMain(GGC_ThreadArg arg)
{
    Node r[NR] = { NULL, NULL, NULL, NULL, NULL, NULL }; NodeArray holder = NULL, hoard = NULL; ggc_size_t *hoardId = NULL;
    Th th, *t = &th; long p, n, bar = 0; ggc_thread_t ch[MAXCH]; int nch = 0, i;
    GGC_PUSH_9(r[0], r[1], r[2], r[3], r[4], r[5], holder, arg, hoard);
    thInit(t, r, &holder, (int) (ggc_size_t) GGC_RD(arg, darg), (uint64_t) seed * 1000003 + (uint64_t) (ggc_size_t) GGC_RD(arg, darg));
    holder = GGC_NEW_PA(Node, NH);
    jitInit(t);
    for (p = 0; p < phases; p++) {
        together(t, bar++);
        /* something done by everybody at the same moment */
        switch ((seed + p) % 6) {
            case 0: OP(O_COLLECT); GGC_COLLECT(); break;
            case 1: case 2: if (useFirst) { OP(O_SLOT); firstSlot(t, (int) (p + seed) % NSLOT); } break;
            case 3: if (useFirst) { OP(O_SIZE); firstSize(t, ((ggc_size_t) (p + seed) * 67 + 130) % (POOLCAP / 2)); } break;
            default: break;
        }
        if (hoardPct && !hoardId) hoardId = (ggc_size_t *) vh_calloc(NHOARD, sizeof *hoardId);
        for (n = 0; n < nops; n++) {
            if (hoardPct && n % 16 == 0 && vh_pct(&t->R, hoardPct)) {
                OP(O_HOARD);
                switch (vh_below(&t->R, 5)) {
                    case 0: hoard = NULL; break;
                    case 1: if (hoard) hoardCheck(hoard, hoardId, "hoard"); break;
                    default: hoardFill(t, &hoard, hoardId); break;
                }
            }
            op(t, ch, &nch);
        }
        if (hoard) hoardCheck(hoard, hoardId, "hoard at the end of a phase");
        if (useQueue && nthreads >= 2) {
            /* half send, half receive */
            long m = 6;
            if (t->no % 2 == 0 && (t->no + 1 < nthreads))
                while (m--) {
                    OP(O_ALLOC); r[0] = newNode(t, 1, 2); t->id[0] = GGC_RD(r[0], id);
                    OP(O_SEND); send(t, 0); __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
                }
            else if (t->no % 2 == 1)
                while (m--) { OP(O_RECV); receive(t, (int) (m % NR)); __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED); }
        }
        if (useBlock && nthreads >= 2) {
            /* some are blocked while the others collect; nobody may need them */
            static volatile long done[4096];
            volatile long *dn = &done[p % 4096];
            long blockers = nthreads / 2;
            if (t->no < blockers) {
                OP(O_BLOCK);
                ggc_pre_blocking();
                while (__atomic_load_n(dn, __ATOMIC_SEQ_CST) < nthreads - blockers) { struct timespec ts = { 0, 100000 }; nanosleep(&ts, NULL); }
                ggc_post_blocking();
                for (i = 0; i < NR; i++) walk(t, r[i], t->id[i], 12, "root of a blocked thread");
                for (i = 0; i < NH; i++) { NodeArray h = holder; walk(t, GGC_RAP(h, i), t->hid[i], 4, "array of a blocked thread"); }
                if (hoard) hoardCheck(hoard, hoardId, "hoard of a blocked thread");
                jitOp(t);
                vh_stat("blocked_phases", 1);
            } else {
                int c = 1 + (int) vh_below(&t->R, 3);
                OP(O_COLLECT);
                while (c--) { int q; GGC_COLLECT(); for (q = 0; q < 10; q++) { r[q % NR] = newNode(t, 0, 1); t->id[q % NR] = GGC_RD(r[q % NR], id); } }
                __atomic_fetch_add(dn, 1, __ATOMIC_SEQ_CST);
            }
        }
        vh_stat("phases", 1);
    }
    OP(O_JOIN);
    while (nch) if (ggc_thread_join(ch[--nch])) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
    for (i = 0; i < NR; i++) walk(t, r[i], t->id[i], 50, "local root at the end");
    for (i = 0; i < NH; i++) { NodeArray h = holder; walk(t, GGC_RAP(h, i), t->hid[i], 50, "private array at the end"); }
    if (hoard) hoardCheck(hoard, hoardId, "hoard at the end");
    if (hoardId) vh_free(hoardId);
    keepPut((ggc_size_t) t->no, r[0], t->id[0]);
    jitEnd(t);
    OP(O_END);
    vh_stat("threads_ended", 1);
    GGC_POP();
}

/* the watchdog is no thread of the collector */
static const char *describe(void)
{
    static char buf[400]; int n; long i;
    n = snprintf(buf, sizeof buf, " operations:");
    for (i = 0; i <= nthreads && i <= MAXT && n < 380; i++) n += snprintf(buf + n, sizeof buf - (size_t) n, " %ld", curOp[i]);
    snprintf(buf + n, sizeof buf - (size_t) n, ";");
    return buf;
}

static void setup(void)
{
    long i;
    for (i = 0; i < NCELL; i++) pthread_mutex_init(&cellLock[i], NULL);
    for (i = 0; i < NSLOT; i++) {
        pthread_mutex_init(&slots[i].lock, NULL);
        slots[i].size = 4 + (ggc_size_t) i % 29;
        slots[i].pointers = ((ggc_size_t) i * 0x9E3779B97F4A7C15UL) & (((ggc_size_t) 1 << slots[i].size) - 1) & ~(ggc_size_t) (2 * sizeof(struct GGGGC_Header) / W);
        slots[i].pointers &= ~(ggc_size_t) 3;
    }
    recvMax = 0; recvSeen = NULL;
    ggc_sem_init(&qFree, QLEN); ggc_sem_init(&qUsed, 0);
    (void) recvMax; (void) recvSeen;
}

static int startThread(ggc_thread_t *th, void (*f)(GGC_ThreadArg), ggc_size_t d)
{
    GGC_ThreadArg a = NULL; void *darg = (void *) d;
    int r;
    GGC_PUSH_1(a);
    a = GGC_NEW(GGC_ThreadArg);
    GGC_WD(a, darg, darg);
    r = ggc_thread_create(th, f, a);
    return r;
}

static void runWorkers(void)
{
    ggc_thread_t th[MAXT]; long i;
    ggc_barrier_init(&phaseBarrier, (unsigned) nthreads);
    for (i = 0; i < nthreads; i++)
        if (startThread(&th[i], workerMain, (ggc_size_t) i)) vh_bug("could not start the workers");
    for (i = 0; i < nthreads; i++) {
        if (ggc_thread_join(th[i])) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
        __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
    }
    ggc_barrier_destroy(&phaseBarrier);
}

/* ---- churn: threads that only live shortly ---- */
static volatile long churnWords;
static void churnMain(GGC_ThreadArg arg)
{
    Node r[NR] = { NULL, NULL, NULL, NULL, NULL, NULL }; NodeArray holder = NULL; GGC_voidpArray hoard = NULL;
    Th th, *t = &th; ggc_size_t no = (ggc_size_t) GGC_RD(arg, darg); long words = 0, hn = POOLCAP / 32, h = 0; int i;
    GGC_PUSH_8(r[0], r[1], r[2], r[3], r[4], r[5], holder, hoard);
    thInit(t, r, &holder, MAXT, (uint64_t) seed * 31337 + no);
    holder = GGC_NEW_PA(Node, NH);
    jitInit(t);
    /* some keep so much that their heap grows with every collection */
    if (vh_pct(&t->R, 30)) hoard = GGC_NEW_PA(GGC_voidp, hn);
    while (words < churnWords) {
        i = (int) vh_below(&t->R, NR);
        r[i] = newNode(t, (i + 1) % NR, (i + 2) % NR); t->id[i] = GGC_RD(r[i], id);
        words += 24;
        if (hoard) {
            GGC_size_t_Array o = GGC_NEW_DA(size_t, 24); size_t v = no * 4096 + (ggc_size_t) (h % hn);
            void *vo = (void *) o; ggc_size_t at = (ggc_size_t) (h % hn);
            GGC_WAD(o, 5, v);
            GGC_WAP(hoard, at, vo);
            h++; words += 8;
        }
        jitOp(t);
        __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
        if (useFirst && vh_pct(&t->R, 2)) firstSlot(t, (int) (no + (ggc_size_t) words) % NSLOT);
        if (useFirst && vh_pct(&t->R, 1)) firstSize(t, (no * 64 + 3) % (POOLCAP / 3));
    }
    for (i = 0; i < NR; i++) walk(t, r[i], t->id[i], 20, "local root");
    for (i = 0; hoard && i < h && i < hn; i++) {
        GGC_size_t_Array o = (GGC_size_t_Array) GGC_RAP(hoard, i);
        if (!o || o->length != 24 || GGC_RAD(o, 5) != no * 4096 + (ggc_size_t) i) vh_viol("object-damaged", "element %d of a hoard", i);
    }
    keepPut(no % NKEEP, r[0], t->id[0]);
    jitEnd(t);
    vh_stat("threads_ended", 1);
    GGC_POP();
}

/* threads that leave a single small object behind, in a pool that is otherwise
 * empty or all garbage */
#define NLEG 6
static Tiny legacy[NLEG]; static ggc_size_t legacyId[NLEG]; static volatile ggc_size_t legacyNo;
static void legacyMain(GGC_ThreadArg arg)
{
    Tiny x = NULL; ggc_size_t no = (ggc_size_t) GGC_RD(arg, darg), v; vh_rng R; long w = 0, pre, post;
    GGC_PUSH_1(x);
    R.s = (uint64_t) seed * 77731 + legacyNo * 64 + no;
    pre = vh_pct(&R, 50) ? 0 : (long) vh_below(&R, POOLCAP);
    post = vh_pct(&R, 30) ? 0 : (long) vh_below(&R, POOLCAP + POOLCAP / 2);
    for (; w < pre; w += 40) GGC_NEW_DA(size_t, 8 + vh_below(&R, 30));
    x = GGC_NEW(Tiny);
    v = legacyNo * 64 + no + 1;
    GGC_WD(x, a, v); v = ~v; GGC_WD(x, b, v);
    for (w = 0; w < post; w += 40) GGC_NEW_DA(size_t, 8 + vh_below(&R, 30));
    if (vh_pct(&R, 20)) GGC_COLLECT();
    legacyId[no] = legacyNo * 64 + no + 1;
    legacy[no] = x;
    __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
    vh_stat("threads_ended", 1);
    GGC_POP();
}
static void legacyCheck(const char *when)
{
    int i;
    for (i = 0; i < NLEG; i++) if (legacyId[i]) {
        Tiny x = legacy[i];
        if (GGC_RD(x, a) != legacyId[i] || GGC_RD(x, b) != ~legacyId[i])
            vh_viol("object-damaged", "the only object a thread left behind (%lu) %s: %lx %lx", (unsigned long) legacyId[i], when, (unsigned long) GGC_RD(x, a), (unsigned long) GGC_RD(x, b));
        vh_stat("legacies_checked", 1);
    }
}
static void legacyRound(int par)
{
    ggc_thread_t th[NLEG]; int i, n = 0;
    legacyNo++;
    for (i = 0; i < par && i < NLEG; i++) if (!startThread(&th[n], legacyMain, (ggc_size_t) i)) n++;
    for (i = 0; i < n; i++) if (ggc_thread_join(th[i])) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
    legacyCheck("at once");
    for (i = 0; i < 3; i++) { GGC_COLLECT(); legacyCheck("after a collection"); }
}

static void churn(void)
{
    long rounds = vh_arg("rounds", 60), k, par = nthreads, lim, half = 0; ggc_thread_t th[MAXT]; Th me; Node r[NR] = { NULL, NULL, NULL, NULL, NULL, NULL }; NodeArray holder = NULL;
    GGC_PUSH_13(r[0], r[1], r[2], r[3], r[4], r[5], holder, legacy[0], legacy[1], legacy[2], legacy[3], legacy[4], legacy[5]);
    thInit(&me, r, &holder, MAXT, (uint64_t) seed);
    if (par > 6) par = 6;
    for (k = 0; k < rounds; k++) {
        long i, n = 0;
        if (k % 2) legacyRound(1 + (int) ((seed + k) % par));
        churnWords = (long) (POOLCAP * (1 + (ggc_size_t) (k + seed) % 9) / 6);
        for (i = 0; i < par; i++) {
            if (startThread(&th[n], churnMain, (ggc_size_t) (k * par + i))) {
                if (!vh_failThread) vh_viol("result", "ggc_thread_create failed, errno %d", errno);
            } else n++;
        }
        for (i = 0; i < n; i++) {
            if (ggc_thread_join(th[i])) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
            __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
        }
        for (i = 0; i < NKEEP; i++) keepCheck(&me, (ggc_size_t) i);
        if (k % 4 == 3) GGC_COLLECT();
        for (i = 0; i < NKEEP; i++) keepCheck(&me, (ggc_size_t) i);
        if (k == rounds / 2) half = vh_pools;
    }
    /* the live data and the number of threads did not grow: neither may memory */
    lim = vh_arg("poolmax", 0);
    vh_stat_max("pools_half", half);
    if (lim && vh_pools > lim) vh_viol("footprint", "%ld pools after %ld rounds of %ld threads, allowed %ld", vh_pools, rounds, par, lim);
    GGC_POP();
}

/* ---- recycle: threads that grow while others leave their pools behind ---- */
#define NLEFT 8
static volatile int recycleStop; static volatile long recycleRound;
static GGC_voidpArray left[NLEFT]; static ggc_size_t leftNo[NLEFT];
static void quitMain(GGC_ThreadArg arg)
{
    GGC_voidpArray a = NULL; GGC_size_t_Array o = NULL;
    ggc_size_t w = 0, no = (ggc_size_t) GGC_RD(arg, darg), n = POOLCAP / 44, i, v, lim = POOLCAP / 2 + POOLCAP * (no / NLEFT % 5) / 3; void *vo;
    GGC_PUSH_3(arg, a, o);
    /* types nobody will need anymore */
    while (no % 3 == 1 && w < lim) {
        ggc_size_t size = sizeof(struct GGGGC_Header) / W + 1 + w % 11; ggc_size_t *x;
        struct GGGGC_Descriptor *d = ggggc_allocateDescriptor(size, 0);
        if (w % 8 == 0) {
            x = (ggc_size_t *) GGC_NEW_FROM_DESCRIPTOR(d);
            for (i = sizeof(struct GGGGC_Header) / W; i < size; i++) { if (x[i]) vh_viol("not-zeroed", "word %lu of an object of a new type", (unsigned long) i); x[i] = w; }
        }
        w += 11;
        vh_stat("types_left", 1);
    }
    /* garbage */
    if (no % 5 != 2) for (w = 0; w < lim; w += 42) GGC_NEW_DA(size_t, 40);
    /* what's taken over by the thread that waits for us */
    a = GGC_NEW_PA(GGC_voidp, n);
    for (i = 0; i < n; i++) {
        o = GGC_NEW_DA(size_t, 24 + i % 9);
        for (w = 0; w < 24; w++) { v = vh_hash(no, i * 32 + w); GGC_WAD(o, w, v); }
        vo = (void *) o; GGC_WAP(a, i, vo);
    }
    left[no % NLEFT] = a; leftNo[no % NLEFT] = no;
    vh_stat("threads_ended", 1);
    GGC_POP();
}
static void leftCheck(const char *when)
{
    int k; ggc_size_t i, w;
    for (k = 0; k < NLEFT; k++) for (i = 0; left[k] && i < left[k]->length; i++) {
        GGC_size_t_Array o = (GGC_size_t_Array) GGC_RAP(left[k], i);
        if (!o || o->length != 24 + i % 9) { vh_viol("object-damaged", "element %lu of what a thread left behind, %s", (unsigned long) i, when); continue; }
        for (w = 0; w < 24; w++) if (GGC_RAD(o, w) != vh_hash(leftNo[k], i * 32 + w)) { vh_viol("object-damaged", "word %lu of element %lu of what a thread left behind, %s", (unsigned long) w, (unsigned long) i, when); break; }
    }
}
#define NCHUNK 64
static void growCheck(GGC_voidpArray all, ggc_size_t n, ggc_size_t per, ggc_size_t no)
{
    ggc_size_t k, i;
    for (k = 0; k < n; k++) {
        GGC_voidpArray c = (GGC_voidpArray) GGC_RAP(all, k / per); GGC_size_t_Array e = (GGC_size_t_Array) GGC_RAP(c, k % per);
        if (!e || e->length != 24) { vh_viol("object-damaged", "element %lu of a growing hoard", (unsigned long) k); break; }
        for (i = 0; i < 24; i++) if (GGC_RAD(e, i) != vh_hash(no + 1, k * 32 + i)) { vh_viol("object-damaged", "word %lu of element %lu of a growing hoard", (unsigned long) i, (unsigned long) k); break; }
    }
}
static void growMain(GGC_ThreadArg arg)
{
    GGC_voidpArray all = NULL, cur = NULL; GGC_size_t_Array o = NULL; vh_rng R;
    ggc_size_t no = (ggc_size_t) GGC_RD(arg, darg), per = POOLCAP / 34, n = 0, lim, i, v; void *vo;
    GGC_PUSH_3(all, cur, o);
    R.s = (uint64_t) seed * 9973 + no;
    all = GGC_NEW_PA(GGC_voidp, NCHUNK);
    lim = per * (vh_pct(&R, 50) ? NCHUNK : 2 + vh_below(&R, NCHUNK - 2));
    while (!__atomic_load_n(&recycleStop, __ATOMIC_SEQ_CST)) {
        if (n % per == 0) {
            ggc_size_t at = n / per;
            cur = GGC_NEW_PA(GGC_voidp, per);
            vo = (void *) cur; GGC_WAP(all, at, vo);
        }
        o = GGC_NEW_DA(size_t, 24);
        for (i = 0; i < 24; i++) { v = vh_hash(no + 1, n * 32 + i); GGC_WAD(o, i, v); }
        { ggc_size_t at = n % per; vo = (void *) o; GGC_WAP(cur, at, vo); }
        n++;
        if (n % 97 == 0 && vh_pct(&R, 30)) GGC_COLLECT();
        while (n % per == 0 && !__atomic_load_n(&recycleStop, __ATOMIC_SEQ_CST) && (ggc_size_t) __atomic_load_n(&recycleRound, __ATOMIC_SEQ_CST) * 3 < n / per) GGC_NEW_DA(size_t, 60);
        if (n % per == 0 || n >= lim) __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
        if (n >= lim) {
            growCheck(all, n, per, no);
            vh_stat("hoards_checked", 1);
            cur = NULL; o = NULL; all = NULL;
            all = GGC_NEW_PA(GGC_voidp, NCHUNK);
            n = 0; lim = per * (vh_pct(&R, 50) ? 2 + vh_below(&R, 30) : 2 + vh_below(&R, NCHUNK - 2));
        }
    }
    growCheck(all, n, per, no);
    vh_stat("hoards_checked", 1); vh_stat("hoard_words", (long) n * 26);
    vh_stat("threads_ended", 1);
    GGC_POP();
}
static void recycle(void)
{
    ggc_thread_t g[MAXT], q[NLEFT]; long rounds = vh_arg("rounds", 60), k, i, n, ng = nthreads > 6 ? 6 : nthreads;
    GGC_PUSH_8(left[0], left[1], left[2], left[3], left[4], left[5], left[6], left[7]);
    for (i = 0; i < ng; i++) if (startThread(&g[i], growMain, (ggc_size_t) i)) vh_bug("could not start the growing threads");
    for (k = 0; k < rounds; k++) {
        __atomic_store_n(&recycleRound, k, __ATOMIC_SEQ_CST);
        for (n = 0, i = 0; i < 1 + (k + seed) % 6; i++) if (!startThread(&q[n], quitMain, (ggc_size_t) (k * NLEFT + (k + i) % NLEFT))) n++;
        for (i = 0; i < n; i++) if (ggc_thread_join(q[i])) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
        leftCheck("at once");
        if (k % 3 == 1) { GGC_COLLECT(); leftCheck("after a collection"); }
        for (i = 0; i < NLEFT; i++) if ((k + seed) % 4 || i % 2) left[i] = NULL;
        if (k % 3) GGC_COLLECT();
        leftCheck("after others ended");
        __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
    }
    __atomic_store_n(&recycleStop, 1, __ATOMIC_SEQ_CST);
    for (i = 0; i < ng; i++) if (ggc_thread_join(g[i])) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
    GGC_POP();
}

/* ---- types made at run time, used by all threads, that end with their objects ---- */
#define NTYPE 12
GGC_TYPE(Dyn)
    GGC_MPTR(Dyn, next);
    GGC_MDATA(ggc_size_t, id);
GGC_END_TYPE(Dyn,
    GGC_PTR(Dyn, next)
    )
static GGC_voidpArray types; static ggc_size_t typeSize[NTYPE]; static ggc_mutex_t typeLock = GGC_MUTEX_INITIALIZER;
static volatile long typeRound, typeDone, typeStop;
#define DYNWORDS (sizeof(struct Dyn__ggggc_struct) / W)
static void typeRenew(vh_rng *q, int k)
{
    struct GGGGC_Descriptor *d; ggc_size_t size = DYNWORDS + vh_below(q, vh_pct(q, 30) ? 100 : 12), j; GGC_voidpArray ty; void *v = NULL;
    GGC_PUSH_1(v);
    for (j = vh_below(q, 6); j; j--) GGC_NEW_DA(size_t, vh_below(q, 30));
    d = ggggc_allocateDescriptor(size, (ggc_size_t) 1 << (offsetof(struct Dyn__ggggc_struct, next__ptr) / W));
    v = (void *) d;
    for (j = vh_below(q, 6); j; j--) GGC_NEW_DA(size_t, vh_below(q, 30));
    if (ggc_mutex_lock(&typeLock)) vh_viol("result", "ggc_mutex_lock failed");
    ty = types; GGC_WAP(ty, k, v); typeSize[k] = size;
    ggc_mutex_unlock(&typeLock);
    vh_stat("types_made", 1);
    GGC_POP();
}
static void dynCheck(Dyn c, ggc_size_t n, const char *when)
{
    ggc_size_t k, i, size, id;
    for (k = 0; k < n; k++) {
        ggc_size_t *w = (ggc_size_t *) c; struct GGGGC_Descriptor *d;
        if (!c || (ggc_size_t) c % W || !vh_inPool(c)) { vh_viol("lost", "object %lu of %lu of types made at run time, %s: %p", (unsigned long) k, (unsigned long) n, when, (void *) c); return; }
        id = GGC_RD(c, id); size = id % 256; d = ((struct GGGGC_Header *) c)->descriptor__ptr;
        if (d->size != size) { vh_viol("wrong-type", "an object of %lu words has a type of %lu, %s", (unsigned long) size, (unsigned long) d->size, when); return; }
        for (i = DYNWORDS; i < size; i++) if (w[i] != vh_hash(id, i)) { vh_viol("data-changed", "word %lu of an object of %lu words, %s", (unsigned long) i, (unsigned long) size, when); return; }
        c = GGC_RP(c, next);
    }
    if (c) vh_viol("wrong-object", "a chain of %lu objects of types made at run time goes on, %s", (unsigned long) n, when);
    vh_stat("chains_checked", 1);
}
static void typeWork(vh_rng *q, Dyn *chain, ggc_size_t *n, void **d)
{
    static const ggc_size_t much[] = {3, 60, 600, 2500}; ggc_size_t m = much[vh_below(q, 4)], size = 0, id, i, *w; Dyn o = NULL;
    GGC_PUSH_1(o);
    m += vh_below(q, m);
    while (m--) {
        if (vh_pct(q, 2)) typeRenew(q, (int) vh_below(q, NTYPE));
        if (!size || vh_pct(q, 5)) {
            int k = (int) vh_below(q, NTYPE); GGC_voidpArray ty;
            if (ggc_mutex_lock(&typeLock)) vh_viol("result", "ggc_mutex_lock failed");
            ty = types; *d = GGC_RAP(ty, k); size = typeSize[k];
            ggc_mutex_unlock(&typeLock);
            if (!*d) { size = 0; typeRenew(q, k); continue; }
        }
        o = (Dyn) ggggc_malloc((struct GGGGC_Descriptor *) *d);
        if ((void *) ((struct GGGGC_Header *) o)->descriptor__ptr != *d) vh_viol("wrong-type", "a new object of a type made at run time");
        if (GGC_RP(o, next) || GGC_RD(o, id)) vh_viol("not-zeroed", "a new object of a type made at run time");
        for (w = (ggc_size_t *) o, i = DYNWORDS; i < size; i++) if (w[i]) { vh_viol("not-zeroed", "word %lu of a new object of %lu words", (unsigned long) i, (unsigned long) size); break; }
        id = (ggc_size_t) __atomic_fetch_add(&nextId, 1, __ATOMIC_RELAXED) * 256 + size;
        GGC_WD(o, id, id);
        for (i = DYNWORDS; i < size; i++) w[i] = vh_hash(id, i);
        GGC_WP(o, next, *chain); *chain = o; ++*n;
        if (vh_below(q, 700) == 0) GGC_COLLECT();
        if (vh_below(q, 300) == 0) { dynCheck(*chain, *n, "while making more"); if (vh_pct(q, 30)) { *chain = NULL; *n = 0; } }
        if (m % 64 == 0) __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
    }
    GGC_POP();
}
static void typesMain(GGC_ThreadArg arg)
{
    Dyn chain = NULL; void *d = NULL; ggc_size_t n = 0; vh_rng q; long r = 0;
    GGC_PUSH_3(arg, chain, d);
    q.s = (uint64_t) seed * 7919 + (ggc_size_t) GGC_RD(arg, darg); vh_next(&q);
    for (;;) {
        while (__atomic_load_n(&typeRound, __ATOMIC_SEQ_CST) == r) GGC_YIELD();
        r++;
        if (__atomic_load_n(&typeStop, __ATOMIC_SEQ_CST)) break;
        typeWork(&q, &chain, &n, &d);
        if (vh_pct(&q, 75)) { chain = NULL; n = 0; }
        d = NULL;
        __atomic_fetch_add(&typeDone, 1, __ATOMIC_SEQ_CST);
        if (vh_pct(&q, 30)) { /* wait blocked */
            ggc_pre_blocking();
            while (__atomic_load_n(&typeRound, __ATOMIC_SEQ_CST) == r) { struct timespec ts = { 0, 50000 }; nanosleep(&ts, NULL); }
            ggc_post_blocking();
        } else while (__atomic_load_n(&typeRound, __ATOMIC_SEQ_CST) == r) GGC_YIELD();
        r++;
        dynCheck(chain, n, "after everybody dropped objects and types");
    }
    dynCheck(chain, n, "at the end");
    vh_stat("threads_ended", 1);
    GGC_POP();
}
static void runTypes(void)
{
    ggc_thread_t g[MAXT]; long rounds = vh_arg("rounds", 20), k, i, ng = nthreads; vh_rng q; void *nul = NULL;
    GGC_PUSH_1(types);
    q.s = (uint64_t) seed; vh_next(&q);
    types = GGC_NEW_PA(GGC_voidp, NTYPE);
    for (i = 0; i < ng; i++) if (startThread(&g[i], typesMain, (ggc_size_t) i)) vh_bug("could not start threads");
    for (k = 0; k < rounds; k++) {
        __atomic_store_n(&typeDone, 0, __ATOMIC_SEQ_CST);
        for (i = 0; i < 4; i++) typeRenew(&q, (int) vh_below(&q, NTYPE));
        __atomic_fetch_add(&typeRound, 1, __ATOMIC_SEQ_CST);
        while (__atomic_load_n(&typeDone, __ATOMIC_SEQ_CST) < ng) GGC_YIELD();
        for (i = 0; i < NTYPE; i++) if (vh_pct(&q, 80)) GGC_WAP(types, i, nul);
        for (i = 1 + (long) vh_below(&q, 2); i; i--) { GGC_COLLECT(); __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED); }
        __atomic_fetch_add(&typeRound, 1, __ATOMIC_SEQ_CST);
        __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
    }
    __atomic_store_n(&typeStop, 1, __ATOMIC_SEQ_CST);
    __atomic_fetch_add(&typeRound, 1, __ATOMIC_SEQ_CST);
    for (i = 0; i < ng; i++) if (ggc_thread_join(g[i])) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
    GGC_POP();
}

/* ---- results of the wrapped calls ---- */
static volatile long handled; static void onUsr1(int s) { (void) s; handled++; }
static pthread_mutex_t errMutex; static ggc_sem_t aSem; static volatile int semWaiting; static pthread_t mainThread;
static ggc_mutex_t heldMutex = GGC_MUTEX_INITIALIZER; static volatile int phase_;
static void holderMain(GGC_ThreadArg arg)
{
    /* have the mutex while collecting: whoever waits for it must not be needed */
    Node n = NULL; Th t; Node r[NR] = { NULL, NULL, NULL, NULL, NULL, NULL }; NodeArray holder = NULL; int i;
    GGC_PUSH_8(r[0], r[1], r[2], r[3], r[4], r[5], holder, n);
    (void) arg;
    thInit(&t, r, &holder, MAXT, (uint64_t) seed);
    if (ggc_mutex_lock(&heldMutex)) vh_viol("result", "ggc_mutex_lock failed");
    __atomic_store_n(&phase_, 1, __ATOMIC_SEQ_CST);
    for (i = 0; i < 6; i++) { GGC_COLLECT(); n = newNode(&t, -1, -1); checkNode(n, GGC_RD(n, id), "x"); __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED); }
    __atomic_store_n(&phase_, 2, __ATOMIC_SEQ_CST);
    ggc_mutex_unlock(&heldMutex);
    GGC_POP();
}
static void poster(GGC_ThreadArg arg)
{
    int i, n = (int) (ggc_size_t) GGC_RD(arg, darg);
    for (i = 0; i < n; i++) { GGC_COLLECT(); __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED); if (ggc_sem_post(&aSem)) vh_viol("result", "ggc_sem_post failed"); }
}
static void *killer(void *x)
{
    int i;
    for (i = 0; i < 2000 && !__atomic_load_n(&handled, __ATOMIC_SEQ_CST); i++) {
        struct timespec ts = { 0, 2000000 };
        nanosleep(&ts, NULL);
        if (semWaiting) { pthread_kill(mainThread, SIGUSR1); }
        nanosleep(&ts, NULL);
        if (handled) break;
    }
    return x;
}
static void results(void)
{
    pthread_mutexattr_t ma; struct sigaction sa; pthread_t k; ggc_thread_t th; ggc_barrier_t b1; int r, i; Th t; Node rr[NR] = { NULL, NULL, NULL, NULL, NULL, NULL }; NodeArray holder = NULL; long round;
    GGC_PUSH_7(rr[0], rr[1], rr[2], rr[3], rr[4], rr[5], holder);
    thInit(&t, rr, &holder, MAXT, (uint64_t) seed);
    for (round = 0; round < vh_arg("rounds", 10); round++) {
        __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
        for (i = 0; i < NR; i++) { rr[i] = newNode(&t, (i + 1) % NR, -1); t.id[i] = GGC_RD(rr[i], id); }
        /* errors come through */
        pthread_mutexattr_init(&ma); pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_ERRORCHECK);
        pthread_mutex_init(&errMutex, &ma);
        if (ggc_mutex_lock(&errMutex)) vh_viol("result", "locking a free mutex failed, errno %d", errno);
        errno = 0; r = ggc_mutex_lock(&errMutex);
        if (r != -1 || errno != EDEADLK) vh_viol("result", "relocking: %d, errno %d", r, errno);
        if (ggc_mutex_trylock(&errMutex) == 0) vh_viol("result", "trylock of a taken mutex succeeded");
        if (ggc_mutex_unlock(&errMutex)) vh_viol("result", "unlocking failed");
        if (!TSAN && ggc_mutex_unlock(&errMutex) == 0) vh_viol("result", "unlocking a free error-checking mutex succeeded");
        if (ggc_mutex_trylock(&errMutex) != 0) vh_viol("result", "trylock of a free mutex failed");
        ggc_mutex_unlock(&errMutex);
        pthread_mutex_destroy(&errMutex);
        if (!ASAN) { errno = 0; r = ggc_thread_join(pthread_self()); }
        if (!ASAN && (r != -1 || errno != EDEADLK)) vh_viol("result", "joining oneself: %d, errno %d", r, errno);
        /* a barrier for one thread */
        ggc_barrier_init(&b1, 1);
        for (i = 0; i < 3; i++) if ((r = ggc_barrier_wait(&b1))) vh_viol("result", "ggc_barrier_wait of the only thread: %d, errno %d", r, errno);
        ggc_barrier_destroy(&b1);
        /* a semaphore: as many waits as posts, collections meanwhile */
        ggc_sem_init(&aSem, 0);
        vh_failThread = 0;
        if (startThread(&th, poster, 4)) vh_viol("result", "ggc_thread_create failed, errno %d", errno);
        for (i = 0; i < 4; i++) if ((r = ggc_sem_wait(&aSem))) vh_viol("result", "ggc_sem_wait: %d, errno %d", r, errno);
        if (ggc_thread_join(th)) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
        { int v = -1; sem_getvalue(&aSem, &v); if (v != 0) vh_viol("result", "semaphore has value %d after 4 posts and 4 waits", v); }
        for (i = 0; i < NR; i++) walk(&t, rr[i], t.id[i], 12, "root of a thread that waited for a semaphore");
        /* an interrupted wait reports EINTR */
        if (round == 0) {
            memset(&sa, 0, sizeof sa); sa.sa_handler = onUsr1; sigaction(SIGUSR1, &sa, NULL);
            mainThread = pthread_self(); semWaiting = 1; handled = 0;
            if (pthread_create(&k, NULL, killer, NULL)) vh_bug("pthread_create");
            errno = 0; r = ggc_sem_wait(&aSem);
            semWaiting = 0;
            if (r != -1 || errno != EINTR) vh_viol("result", "interrupted ggc_sem_wait: %d, errno %d", r, errno);
            pthread_join(k, NULL);
        }
        ggc_sem_destroy(&aSem);
        /* waiting for a mutex through collections */
        phase_ = 0;
        if (startThread(&th, holderMain, 0)) vh_viol("result", "ggc_thread_create failed, errno %d", errno);
        while (!__atomic_load_n(&phase_, __ATOMIC_SEQ_CST)) GGC_YIELD();
        if ((r = ggc_mutex_lock(&heldMutex))) vh_viol("result", "ggc_mutex_lock: %d, errno %d", r, errno);
        if (__atomic_load_n(&phase_, __ATOMIC_SEQ_CST) != 2) vh_viol("exclusion", "got a mutex that another thread has");
        ggc_mutex_unlock(&heldMutex);
        if (ggc_thread_join(th)) vh_viol("result", "ggc_thread_join failed, errno %d", errno);
        for (i = 0; i < NR; i++) walk(&t, rr[i], t.id[i], 12, "root of a thread that waited for a mutex");
        vh_stat("result_rounds", 1);
    }
    GGC_POP();
}

int main(int argc, char **argv)
{
    const char *prof; long i; Cell c = NULL;
    vh_init(argc, argv);
    seed = vh_arg("seed", 1); nthreads = vh_arg("threads", 4); nops = vh_arg("ops", 150); phases = vh_arg("phases", 8);
    vh_delayPct = (int) vh_arg("delay", 0); vh_junk = (int) vh_arg("junk", 1);
    prof = vh_sarg("profile", "mixed");
    if (nthreads > MAXT) nthreads = MAXT;
    if (!strcmp(prof, "block")) { useSpawn = 0; collectPct = 4; }
    else if (!strcmp(prof, "first")) { useQueue = 0; }
    else if (!strcmp(prof, "plain")) { useSpawn = useBlock = useFirst = useQueue = 0; }
    vh_busyPct = !strcmp(prof, "results") ? 0 : !strcmp(prof, "first") || !strcmp(prof, "types") ? 50 : 20;
    setup();
    vh_watchStart(&progress, vh_arg("wd", 25), describe);
    vh_failThread = vh_arg("failthread", 0);
    hoardPct = (int) vh_arg("hoard", 0);
    {
        GGC_PUSH_6(box, keep, cells, queue, c, cell0);
        box = GGC_NEW_PA(Node, NBOX);
        keep = GGC_NEW_PA(Node, NKEEP);
        queue = GGC_NEW_PA(Node, QLEN);
        cells = GGC_NEW_PA(Cell, NCELL);
        for (i = 0; i < NCELL; i++) {
            ggc_size_t no = (ggc_size_t) i;
            c = GGC_NEW(Cell); GGC_WD(c, no, no);
            { CellArray cs = cells; GGC_WAP(cs, i, c); }
        }
        c = NULL;
        GGC_COLLECT(); /* now they're old */
        if (!strcmp(prof, "churn")) churn();
        else if (!strcmp(prof, "recycle")) recycle();
        else if (!strcmp(prof, "types")) runTypes();
        else if (!strcmp(prof, "results")) results();
        else runWorkers();
        OPOF(MAXT, O_MAIN);
        {
            Th t; Node r[NR] = { NULL, NULL, NULL, NULL, NULL, NULL }; NodeArray holder = NULL;
            thInit(&t, r, &holder, MAXT, (uint64_t) seed);
            for (i = 0; i < 4; i++) {
                long k;
                for (k = 0; k < NBOX; k++) { NodeArray b = box; walk(&t, GGC_RAP(b, k), boxId[k], 60, "shared array at the end"); }
                for (k = 0; k < NKEEP; k++) keepCheck(&t, (ggc_size_t) k);
                for (k = 0; k < NCELL; k++) { CellArray cs = cells; Cell cc = GGC_RAP(cs, k); walk(&t, GGC_RP(cc, n), GGC_RD(cc, nId), 60, "shared cell at the end"); }
                GGC_COLLECT();
                __atomic_fetch_add(&progress, 1, __ATOMIC_RELAXED);
            }
            if (sent != received) vh_viol("queue", "%ld messages sent, %ld received", sent, received);
#ifdef GGGGC_FEATURE_FINALIZERS
            /* what is still referred to from the shared structures has not been
             * finalized; drop them, and everything will be */
            box = keep = queue = NULL; cells = NULL;
            for (i = 0; i < 3; i++) GGC_COLLECT();
            if (finRan != finAttached) vh_viol("finalizer-missing", "%ld finalizers attached, %ld ran", finAttached, finRan);
            vh_stat("finalizers", finRan);
#endif
        }
        GGC_POP();
    }
    vh_watchStop();
    vh_stat("threads", nthreads); vh_stat("spawned", spawned); vh_stat("spawn_refused", spawnFailed); vh_stat("messages", received);
    vh_stat("objects", (long) nextId - 1); vh_stat("progress", progress);
    vh_sample("profile %s, %ld threads, %ld phases of %ld operations, delay %d%%: %ld objects, %ld barrier waits", prof, nthreads, phases, nops, vh_delayPct, (long) nextId - 1, vh_barriers);
    vh_done();
    return 0;
}
