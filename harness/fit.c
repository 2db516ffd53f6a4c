/* Allocation progress: whatever is live and however it lies, every allocation
 * that could succeed completes within a bounded number of collections. Keeps a
 * changing set of arrays from empty to a whole pool, fragments it, and counts
 * the world stops inside each allocation. */
#include "vh.h"
#include "ggggc/gc.h"

#ifdef __cplusplus
extern "C" {
#endif
size_t vh_poolBytes = GGGGC_POOL_BYTES;
#ifdef __cplusplus
}
#endif

#define W sizeof(ggc_size_t)
#define POOLCAP ((GGGGC_POOL_BYTES - offsetof(struct GGGGC_Pool, start)) / W)
#define HDR (sizeof(struct GGGGC_Header) / W)
#define NS 4096
static vh_rng R;
static GGC_voidpArray slots; /* of data arrays */
static struct { ggc_size_t id, len; int used; } m[NS];
static ggc_size_t nslots, live, budget, nextId = 1;

static ggc_size_t word(ggc_size_t id, ggc_size_t i) { return vh_hash(id, i) | 1; }
static ggc_size_t cost(ggc_size_t len) { return len + 1 + HDR; }

static ggc_size_t maxLen(void)
{
#ifdef GGGGC_FEATURE_EXTTAG
    return POOLCAP - 1 - HDR;
#else
    return POOLCAP - 1 - HDR;
#endif
}

static ggc_size_t pickLen(void)
{
    ggc_size_t mx = maxLen(), l;
    switch (vh_below(&R, 10)) {
        case 0: case 1: l = vh_below(&R, 40); break;
        case 2: case 3: l = vh_below(&R, mx / 8 + 1); break;
        case 4: case 5: l = mx * (30 + vh_below(&R, 20)) / 100; break;
        case 6: case 7: l = mx * (50 + vh_below(&R, 20)) / 100; break;
        case 8: l = mx * (70 + vh_below(&R, 30)) / 100; break;
        default: l = mx - vh_below(&R, 3);
    }
    return l > mx ? mx : l;
}

static void check(ggc_size_t k, int full)
{
    GGC_size_t_Array a = (GGC_size_t_Array) GGC_RAP(slots, k); ggc_size_t i, step;
    if (!m[k].used) { if (a) vh_viol("resurrected", "slot %lu", (unsigned long) k); return; }
    if (!a) vh_viol("lost", "array #%lu", (unsigned long) m[k].id);
    if ((ggc_size_t) a % W || !vh_inPool(a)) vh_viol("wild-pointer", "array #%lu: %p", (unsigned long) m[k].id, (void *) a);
    if (a->length != m[k].len) vh_viol("length-changed", "array #%lu: %lu, expected %lu", (unsigned long) m[k].id, (unsigned long) a->length, (unsigned long) m[k].len);
    step = full ? 1 : 1 + m[k].len / 5;
    for (i = 0; i < m[k].len; i += step)
        if (GGC_RAD(a, i) != word(m[k].id, i)) vh_viol("data-changed", "array #%lu, word %lu", (unsigned long) m[k].id, (unsigned long) i);
    vh_stat("checked", 1);
}

static void drop(ggc_size_t k)
{
    void *nul = NULL;
    if (!m[k].used) return;
    check(k, 0);
    GGC_WAP(slots, k, nul);
    live -= cost(m[k].len); m[k].used = 0;
}

/* the number of world stops inside one allocation is bounded */
static long base, worst;
static void begin(void) { base = vh_barriers; vh_barrierCap = vh_barriers + 3 * (4 * GGGGC_GENERATIONS + 8); }
static void end(void) { long d = vh_barriers - base; vh_barrierCap = 0; if (d > worst) worst = d; vh_stat("allocations", 1); }

static void put(ggc_size_t k, ggc_size_t len)
{
    GGC_size_t_Array a; ggc_size_t i, v;
    drop(k);
    begin();
    a = GGC_NEW_DA(size_t, len);
    end();
    if (a->length != len) vh_viol("wrong-length", "new array of %lu: %lu", (unsigned long) len, (unsigned long) a->length);
    m[k].id = nextId++; m[k].len = len; m[k].used = 1; live += cost(len);
    for (i = 0; i < len; i++) {
        if (GGC_RAD(a, i)) vh_viol("not-zeroed", "new array of %lu, word %lu", (unsigned long) len, (unsigned long) i);
        v = word(m[k].id, i); GGC_WAD(a, i, v);
    }
    GGC_WAP(slots, k, a);
}

int main(int argc, char **argv)
{
    long n, ops, k; ggc_size_t i; int mode;
    vh_init(argc, argv);
    R.s = (uint64_t) vh_arg("seed", 1); ops = vh_arg("ops", 60); vh_junk = 1;
    {
        GGC_PUSH_1(slots);
        nslots = maxLen() < NS ? maxLen() / 2 : NS / 2;
        if (nslots > 400) nslots = 400;
        slots = GGC_NEW_PA(GGC_voidp, nslots);
        for (n = 0; n < ops; n++) {
            budget = POOLCAP * (1 + vh_below(&R, (uint64_t) vh_arg("live", 24)));
            mode = (int) vh_below(&R, 8);
            switch (mode) {
                case 0: /* fill with equal ones, two of which fit a pool, then thin out */
                case 1: {
                    ggc_size_t l = maxLen() * (34 + vh_below(&R, 15)) / 100, p = 2 + vh_below(&R, 2);
                    for (i = 0; i < nslots && live + cost(l) < budget; i++) if (!m[i].used) put(i, l);
                    p = 2; for (i = vh_below(&R, 2); i < nslots; i += p) drop(i);
                    l = maxLen() * (52 + vh_below(&R, 48)) / 100;
                    for (k = 0; k < 3; k++) { i = vh_below(&R, nslots); if (!m[i].used && live + cost(l) < budget + 3 * POOLCAP) put(i, l); }
                    break;
                }
                case 2: for (i = 0; i < nslots; i++) if (vh_pct(&R, 50)) drop(i); break;
                case 3: for (i = 0; i < nslots; i++) if (vh_pct(&R, 90)) drop(i); break;
                case 4: GGC_COLLECT(); for (i = 0; i < nslots; i++) check(i, 1); vh_stat("collected", 1); break;
                default: /* random sizes up to the budget */
                    for (k = 0; k < 200; k++) {
                        ggc_size_t l = pickLen();
                        i = vh_below(&R, nslots);
                        drop(i);
                        if (live + cost(l) >= budget) { if (vh_pct(&R, 50)) break; continue; }
                        put(i, l);
                    }
            }
            vh_distinct("layout", vh_hash(vh_hash((uint64_t) mode, live / (POOLCAP / 2)), (uint64_t) vh_pools));
        }
        for (i = 0; i < nslots; i++) check(i, 1);
    }
    vh_stat_max("worst_stops", worst);
    vh_sample("%ld rounds, %ld world stops, at most %ld barrier waits in one allocation, %ld pools", ops, vh_barriers, worst, vh_pools);
    vh_done();
    return 0;
}
