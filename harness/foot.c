/* Footprint monitor: a program with bounded live data, that allocates many
 * times that, must reach a steady number of pools, within a multiple of its
 * live data. kind=... selects what becomes garbage, and how. */
#include "vh.h"
#include "ggggc/gc.h"
#include "ggggc/collections/list.h"
#include "ggggc/collections/map.h"

#ifdef __cplusplus
extern "C" {
#endif
size_t vh_poolBytes = GGGGC_POOL_BYTES;
#ifdef __cplusplus
}
#endif

#define POOLCAP ((GGGGC_POOL_BYTES - offsetof(struct GGGGC_Pool, start)) / sizeof(ggc_size_t))

GGC_TYPE(FNode)
    GGC_MPTR(FNode, next);
    GGC_MPTR(FNode, other);
    GGC_MDATA(ggc_size_t, id);
GGC_END_TYPE(FNode,
    GGC_PTR(FNode, next)
    GGC_PTR(FNode, other)
    )
GGC_TYPE(Val)
    GGC_MDATA(ggc_size_t, v);
    GGC_MPTR(FNode, n);
GGC_END_TYPE(Val, GGC_PTR(Val, n))
GGC_LIST(Val)
static size_t vHash(Val v) { return GGC_RD(v, v) * 0x9E3779B1UL; }
static int vCmp(Val a, Val b) { return GGC_RD(a, v) < GGC_RD(b, v) ? -1 : GGC_RD(a, v) > GGC_RD(b, v); }
GGC_MAP(VMap, Val, Val, vHash, vCmp)

static vh_rng R;
static unsigned long long words;      /* words allocated so far (main thread) */
static ggc_size_t liveWords;          /* words that may be live at once */
#define HDR (sizeof(struct GGGGC_Header) / sizeof(ggc_size_t))
#define FNW (sizeof(struct FNode__ggggc_struct) / sizeof(ggc_size_t))

static ggc_thread_local int inThread;
static FNode fnode(void) { FNode n = GGC_NEW(FNode); if (!inThread) words += FNW; return n; }
/* returns by pointer to a pushed variable, as callers hold it */
static ggc_size_t da(GGC_size_t_Array *a, ggc_size_t len) { *a = GGC_NEW_DA(size_t, len); words += len + 1 + HDR; return len + 1 + HDR; }

/* ---- structures of about n words; the last ones stay reachable from *root ---- */
static FNode chain(ggc_size_t n, int shape)
{
    FNode head = NULL, last = NULL, cur = NULL; ggc_size_t i, m = n / FNW;
    GGC_PUSH_3(head, last, cur);
    if (m < 1) m = 1;
    head = fnode(); last = head;
    for (i = 1; i < m; i++) {
        cur = fnode();
        GGC_WD(cur, id, i);
        switch (shape) {
            case 0: GGC_WP(cur, next, last); last = cur; break;                     /* young to old */
            case 1: GGC_WP(last, next, cur); last = cur; break;                     /* old to young */
            case 2: GGC_WP(last, next, cur); GGC_WP(cur, other, last); last = cur; break; /* both ways */
            default: { FNode h = GGC_RP(head, other); GGC_WP(cur, next, h); GGC_WP(head, other, cur); } /* star from an old object */
        }
        GGC_YIELD();
    }
    if (shape == 0) head = last; else if (shape == 1 || shape == 2) GGC_WP(last, next, head); /* ring */
    return head;
}
static const char *kind;
static int is(const char *k) { return strcmp(kind, k) == 0; }

static FNode gRoot; static FNodeArray gSlots; static ValList gList; static VMap gMap; static FNode gHead, gTail; static ggc_size_t gLen, gStep;
static GGC_size_t_Array gBig;
static long finRan, finMade;

#ifdef GGGGC_FEATURE_FINALIZERS
static void aFin(void *v) { (void) v; finRan++; }
#endif
static void deep(ggc_size_t d)
{
    FNode a = NULL, b = NULL;
    GGC_PUSH_2(a, b);
    a = fnode(); b = fnode(); GGC_WP(a, next, b); GGC_WP(b, other, a);
    if (d) deep(d - 1);
    GGC_POP();
}
static void descriptors(ggc_size_t n)
{
    struct GGGGC_Descriptor *d = NULL; void *o = NULL; ggc_size_t i, bm[8];
    GGC_PUSH_2(d, o);
    for (i = 0; i < n; i++) {
        ggc_size_t size = HDR + 1 + vh_below(&R, 60 < POOLCAP / 4 ? 60 : POOLCAP / 4);
        memset(bm, 0, sizeof(bm)); bm[0] = 1;
        d = ggggc_allocateDescriptorL(size, bm); words += 8;
        o = ggggc_malloc(d); words += size;
        GGC_YIELD();
    }
    GGC_POP();
}

static void step(void)
{
    ggc_size_t i;
    GGC_size_t_Array a = NULL; FNode n = NULL, m = NULL; FNodeArray pa = NULL; Val v = NULL, w = NULL; ValList l = NULL; VMap mp = NULL;
    GGC_PUSH_8(a, n, m, pa, v, w, l, mp);
    gStep++;
    if (is("young")) { for (i = 0; i < 200; i++) { n = fnode(); m = fnode(); GGC_WP(n, next, m); GGC_YIELD(); } }
    else if (is("cycles")) { n = chain(liveWords < 600 ? liveWords : 600, 2); n = NULL; }
    /* a structure is kept while the next is built, then dropped as a whole, having been promoted */
    else if (is("drop0")) { n = chain(liveWords / 2, 0); gRoot = n; }
    else if (is("drop1")) { n = chain(liveWords / 2, 1); gRoot = n; }
    else if (is("drop2")) { n = chain(liveWords / 2, 2); gRoot = n; }
    else if (is("drop3")) { n = chain(liveWords / 2, 3); gRoot = n; }
    /* the same, collected explicitly until it is as old as can be */
    else if (is("age")) { n = chain(liveWords / 2, (int) (gStep % 4)); gRoot = n; for (i = 0; i < 2 + vh_below(&R, 10); i++) GGC_COLLECT(); gRoot = NULL; }
    /* ring through old and young, dropped in halves */
    else if (is("queue")) {            /* sliding window: always as much live */
        for (i = 0; i < 300; i++) {
            n = fnode();
            if (!gHead) { gHead = gTail = n; gLen = 1; } else { GGC_WP(gTail, next, n); gTail = n; gLen++; }
            if (vh_pct(&R, 30)) { m = GGC_RP(gTail, next); GGC_WP(n, other, gHead); }
            while (gLen * FNW > liveWords / 2) { m = GGC_RP(gHead, next); n = NULL; GGC_WP(gHead, next, n); GGC_WP(gHead, other, n); gHead = m; gLen--; }
            GGC_YIELD();
        }
    }
    else if (is("window")) {           /* the same without unlinking: only the head is dropped */
        for (i = 0; i < 300; i++) {
            n = fnode();
            if (!gHead) { gHead = gTail = n; gLen = 1; } else { GGC_WP(gTail, next, n); gTail = n; gLen++; }
            while (gLen * FNW > liveWords / 4) { gHead = GGC_RP(gHead, next); gLen--; }
            GGC_YIELD();
        }
    }
    else if (is("slots")) {            /* random replacement in an old array */
        if (!gSlots) { ggc_size_t c = liveWords / (FNW * 2); if (c > POOLCAP / 3) c = POOLCAP / 3; pa = GGC_NEW_PA(FNode, c); gSlots = pa; }
        for (i = 0; i < 300; i++) {
            n = fnode();
            if (vh_pct(&R, 50)) { m = fnode(); GGC_WP(n, next, m); GGC_WP(m, other, n); }
            GGC_WAP(gSlots, vh_below(&R, gSlots->length), n);
            GGC_YIELD();
        }
    }
    else if (is("near")) {             /* nearly as large as a pool */
        for (i = 0; i < 4; i++) { da(&a, POOLCAP - HDR - 1 - vh_below(&R, 12)); n = fnode(); { size_t one = 1; GGC_WAD(a, 0, one); } GGC_YIELD(); }
    }
    else if (is("half")) {             /* a little more than half a pool, one held */
        da(&a, POOLCAP / 2 + vh_below(&R, POOLCAP / 8)); gBig = a; for (i = 0; i < 50; i++) n = fnode();
    }
    else if (is("arrays")) {           /* arrays of all sizes, some held for a while */
        if (!gSlots) { pa = GGC_NEW_PA(FNode, 16); gSlots = pa; }
        for (i = 0; i < 20; i++) {
            ggc_size_t cap = liveWords / 16; if (cap > POOLCAP / 2) cap = POOLCAP / 2;
            da(&a, vh_below(&R, 1 + (cap >> vh_below(&R, 6))));
            if (vh_pct(&R, 40)) { n = (FNode) (void *) a; GGC_WAP(gSlots, vh_below(&R, 16), n); n = NULL; };
            GGC_YIELD();
        }
    }
    else if (is("parrays")) {          /* pointer arrays full of young objects, dropped when old */
        ggc_size_t c = liveWords / (2 * (FNW + 1)); if (c > POOLCAP / 3) c = POOLCAP / 3;
        pa = GGC_NEW_PA(FNode, c); words += c + 1 + HDR; gSlots = pa;
        for (i = 0; i < c; i++) { n = fnode(); GGC_WAP(pa, i, n); GGC_YIELD(); }
    }
    else if (is("descriptors")) descriptors(100);
    else if (is("frames")) deep(20 + vh_below(&R, 100));
    else if (is("list")) {
        if (!gList) { l = GGC_NEW(ValList); gList = l; }
        for (i = 0; i < 100; i++) {
            v = GGC_NEW(Val); words += 12;
            if (vh_pct(&R, 50)) ValListPush(gList, v); else ValListUnshift(gList, v);
            GGC_YIELD();
        }
        while (GGC_RD(gList, length) * 12 > liveWords / 2) { ValListShift(gList); }
        if (vh_pct(&R, 3)) { l = GGC_NEW(ValList); gList = l; }
    }
    else if (is("map")) {
        ggc_size_t keys = liveWords / 60; if (keys < 4) keys = 4; if (keys > POOLCAP / 8) keys = POOLCAP / 8;
        if (!gMap || vh_pct(&R, 5)) { mp = GGC_NEW(VMap); gMap = mp; }
        if (vh_pct(&R, 5)) { mp = VMapClone(gMap); gMap = mp; words += 4 * keys; }
        for (i = 0; i < 100; i++) {
            v = GGC_NEW(Val); w = GGC_NEW(Val); words += 24;
            { size_t k = vh_below(&R, keys); GGC_WD(v, v, k); }
            VMapPut(gMap, v, w);
            GGC_YIELD();
        }
    }
    else if (is("medium")) {           /* survives one or two collections, then dies */
        n = chain(300, 1); m = gRoot; GGC_WP(n, other, m); gRoot = n;
        /* cut the tail */
        for (i = 0; m && i * 300 < liveWords / 2; i++) { n = m; m = GGC_RP(m, other); }
        if (m) { m = NULL; GGC_WP(n, other, m); }
    }
#ifdef GGGGC_FEATURE_FINALIZERS
    else if (is("finalizers")) {
        for (i = 0; i < 100; i++) {
            n = fnode();
            if (vh_pct(&R, 50)) { m = fnode(); GGC_WP(n, next, m); GGC_WP(m, next, n); }
            GGC_FINALIZE(n, aFin); finMade++; words += 8;
            GGC_YIELD();
        }
    }
#endif
#ifndef GGGGC_NO_THREADS
    else if (is("mtlong")) { extern void runThreads(int); runThreads(100); }
    else if (is("threads")) {
        extern void runThreads(int);
        runThreads(3);
    }
#endif
    else vh_bug("kind %s", kind);
    GGC_POP();
}
#ifndef GGGGC_NO_THREADS
static void worker(void *x)
{
    FNode n = NULL; FNodeArray pa = NULL; ggc_size_t i;
    GGC_PUSH_2(n, pa);
    for (i = 0; i < *(ggc_size_t *) x; i++) { n = chain(POOLCAP / 3, (int) i % 4); n = NULL; if (i % 16 == 15) { n = fnode(); GGC_WP(n, next, n); } }
    GGC_POP();
}
static ggc_size_t workRounds;
static void threadMain(GGC_ThreadArg a) { (void) a; inThread = 1; worker(&workRounds); }
void runThreads(int rounds)
{
    ggc_thread_t t[3]; int i, n = 1 + (int) vh_below(&R, 3);
    workRounds = (ggc_size_t) rounds;
    for (i = 0; i < n; i++) if (ggc_thread_create(&t[i], threadMain, NULL)) vh_bug("thread");
    for (i = 0; i < n; i++) ggc_thread_join(t[i]);
    words += (unsigned long long) n * POOLCAP / 3 * (unsigned long) rounds;
}
#endif

/* what is in use of malloc's memory, other than pools */
#include <malloc.h>
static long outside(void)
{
#if defined(__SANITIZE_ADDRESS__) || defined(GGGGC_USE_SBRK)
    return 0;
#else
    struct mallinfo2 m = mallinfo2();
    return (long) m.uordblks + (long) m.hblkhd - vh_pools * (long) GGGGC_POOL_BYTES;
#endif
}

int main(int argc, char **argv)
{
    long o1, o2;
    long vol, k; unsigned long long poolw = POOLCAP; long p1, p2, bound, livePools; int rounds;
    vh_init(argc, argv);
    R.s = (uint64_t) vh_arg("seed", 1) * 7919 + 3;
    kind = vh_sarg("kind", "young");
    vol = vh_arg("vol", 60);                       /* pools to allocate per phase */
    liveWords = (ggc_size_t) (POOLCAP * (unsigned long) vh_arg("live", 10) / 10);
    GGC_PUSH_4(gRoot, gSlots, gList, gMap);
    { GGC_PUSH_3(gHead, gTail, gBig);
    /* warm up */
    while (words < poolw * (unsigned long) vol) { step(); GGC_YIELD(); }
    p1 = vh_pools; o1 = outside();
    rounds = (int) vh_arg("rounds", 9);
    if (vh_arg("squeeze", 0)) {
        /* live data shrinks, and no more memory is to be had for a long time: what
         * was obtained has to do */
        ggc_size_t full = liveWords; unsigned long long to; long had;
        liveWords = liveWords / (ggc_size_t) vh_arg("squeeze", 0);
        to = words + poolw * (unsigned long) vol; while (words < to) { step(); GGC_YIELD(); }
        GGC_COLLECT();
        had = vh_pools; vh_failAll = (int) vh_arg("failall", 0); vh_failTo = 1L << 40; vh_failFrom = 0;
        to = words + poolw * (unsigned long) vol * 4; while (words < to) { step(); GGC_YIELD(); }
        if (vh_pools != had) vh_bug("not refused");
        vh_failFrom = -1; liveWords = full;
        vh_stat("squeezed", 1);
    }
    for (k = 0; k < rounds; k++) {
        unsigned long long to = words + poolw * (unsigned long) vol;
        while (words < to) { step(); GGC_YIELD(); }
        if (k == rounds / 2 && vh_failFrom >= 0) {
            /* memory is available again, and wanted */
            vh_failFrom = -1; vh_failPct = 0; liveWords *= 3;
            vh_stat("refused_then_lifted", vh_poolsRefused);
            p1 = 3 * p1 + 10;
        }
    }
    p2 = vh_pools; o2 = outside();
    GGC_POP(); }
    livePools = (long) (liveWords / poolw) + 1;
    bound = vh_arg("per", 24) * livePools + vh_arg("base", 30);
    vh_stat("footprints", 1); vh_stat("fin_made", finMade); vh_stat("fin_ran", finRan);
    vh_stat("pools_allocated_in_volume", (long) (words / poolw));
    vh_stat_max("pools_obtained", p2);
    vh_stat_max("pools_warm", p1);
    vh_stat_max("live_pools", livePools);
    vh_distinct("footprint", vh_hash(vh_hash(vh_hash(vh_hash(1, (uint64_t) p1), (uint64_t) p2), words), (uint64_t) kind[0] * 31 + (uint64_t) kind[1] + (uint64_t) strlen(kind)));
    vh_sample("kind %s: %lu pools' worth allocated, live about %ld, obtained %ld after warming up and %ld in the end", kind, (unsigned long) (words / poolw), livePools, p1, p2);
    if (vh_arg("calib", 0)) { printf("CAL %s live %ld p1 %ld p2 %ld o1 %ld o2 %ld vol %lu\n", kind, livePools, p1, p2, o1, o2, (unsigned long) (words / poolw)); }
    else {
        if (p2 > bound) vh_viol("footprint", "kind %s: %ld pools obtained with at most %ld pools' worth live (bound %ld)", kind, p2, livePools, bound);
        if (GGGGC_POOL_SIZE <= 15 && !getenv("VH_FAIL")) {
            long grown = o2 - o1 - 64 * (p2 - p1);
            vh_stat_max("max_growth_outside_pools", grown > 0 ? grown : 0);
            if (grown > 25000) vh_viol("footprint", "kind %s: the library's own memory grows: %ld bytes outside pools after a tenth, %ld in the end", kind, o1, o2);
        }
        if (p2 > vh_arg("grow", 2) * p1 + vh_arg("slack", 14)) vh_viol("footprint", "kind %s: footprint grows: %ld pools after a tenth, %ld in the end", kind, p1, p2);
#ifdef GGGGC_FEATURE_FINALIZERS
        if (is("finalizers") && finMade - finRan > (long) (bound * (long) poolw / 3)) vh_viol("footprint", "%ld of %ld finalizers not run", finMade - finRan, finMade);
#endif
    }
    vh_done();
    return 0;
}
