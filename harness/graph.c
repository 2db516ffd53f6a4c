/* Shadow-model monitor: a random mutator that follows the API rules, and a
 * model of everything it made, kept outside the collected heap. After
 * collections the heap, as seen through the public API, is walked in step with
 * the model: identities must be in bijection, and types, lengths, data words
 * and references must be equal.
 *
 * Built for every feature: FINALIZERS (exactly once, never while reachable, no
 * later than the next full collection, object intact), TAGGING, EXTTAG,
 * JITPSTACK, debug builds, all collectors and allocators. */
#include "vh.h"
#include <alloca.h>
#include "ggggc/gc.h"

#ifdef __cplusplus
extern "C" {
#endif
size_t vh_poolBytes = GGGGC_POOL_BYTES;
#ifdef __cplusplus
}
#endif

#define W sizeof(ggc_size_t)
#define H (sizeof(struct GGGGC_Header)/W)
#define POOLCAP ((GGGGC_POOL_BYTES - offsetof(struct GGGGC_Pool, start)) / W)
#define MAXOBJ (POOLCAP)
#define MINOBJ GGGGC_MINIMUM_OBJECT_SIZE

struct words { struct GGGGC_Header header; GGC_voidp a__ptrs[1]; };
typedef struct words *Words;
struct dwords { struct GGGGC_Header header; ggc_size_t a__data[1]; };
typedef struct dwords *DWords;
struct sizes { struct GGGGC_Header header; ggc_size_t length; };

enum { K_PLAIN, K_PA, K_DA, K_DESC };

typedef struct SObj {
    int kind;
    unsigned id;
    ggc_size_t size;            /* words, as the descriptor says */
    ggc_size_t length;          /* arrays */
    struct SObj *desc;          /* descriptor (NULL for K_DESC) */
    struct SObj **ref;          /* by word: model of pointer words */
    ggc_size_t *data;           /* by word: data words, or tagged pointer words */
    /* K_DESC */
    ggc_size_t dsize; unsigned char *layout; /* per word: 1 pointer, 0 data */
    unsigned char *tags; int noptrs;
    struct SObj *user; ggc_size_t userTag;
    /* finalizers */
    unsigned char att[8];       /* pending attachments */
    unsigned char dead[8];      /* how many of them were there when it was seen unreachable */
    unsigned char old[8];       /* how many of them a full collection has to run */
    unsigned char ran[8];
    int pend;
    int idWord;                 /* first data word carries the id, for finalizers */
    /* traversal */
    void *addr; unsigned epoch, mark, keep;
    struct SObj *next;
} SObj;

static vh_rng R;
static SObj *all; static long nall;
static unsigned nextId = 1, epochNo, markNo;
static long liveWords, liveObjs, shadowWords;

/* profile */
static int pAlloc, pArr, pDA, pDesc, pStore, pData, pUser, pRoot, pCollect, pBurst, pFrame, pFin, pTag, pJit, pGlob, pBig, pPtrData;
static long liveLimit;
static int maxDepth, verifyEvery;
static long opsLeft;

/* ---- shadow roots ---- */
typedef struct { void **slot; SObj *obj; ggc_size_t tag; int jit; } Root;
#define MAXROOT 4096
static Root roots[MAXROOT]; static int nroots;
static void addRoot(void **slot)
{
    if (nroots == MAXROOT) vh_bug("too many roots");
    roots[nroots].slot = slot; roots[nroots].obj = NULL; roots[nroots].tag = 0; roots[nroots].jit = 0; nroots++;
}

/* ---- collections seen ---- */
static long lastColl, lastVerify;
static long collections(void)
{
#ifdef GGGGC_NO_THREADS
    static long fake; return fake += (nextId & 31) == 0;
#elif defined(GGGGC_COLLECTOR_PORTABLEMS)
    return vh_barriers / 4;
#else
    return vh_barriers / 3;
#endif
}

static SObj *newS(int kind, ggc_size_t size, SObj *desc)
{
    SObj *s = (SObj *) vh_calloc(1, sizeof *s);
    s->kind = kind; s->size = size; s->desc = desc; s->id = nextId++;
    if (kind != K_DESC) {
        s->ref = (SObj **) vh_calloc(size, sizeof(SObj *));
        s->data = (ggc_size_t *) vh_calloc(size, W);
    }
    s->next = all; all = s; nall++; shadowWords += size;
    return s;
}
static void freeS(SObj *s)
{
    vh_free(s->ref); vh_free(s->data); vh_free(s->layout); vh_free(s->tags); vh_free(s);
}

/* ---- shadow reachability ---- */
static SObj **stk; static long stkN, stkCap;
static void stkPush(SObj *s)
{
    if (stkN == stkCap) { stkCap = stkCap ? stkCap * 2 : 1024; stk = (SObj **) vh_realloc(stk, stkCap * sizeof *stk); }
    stk[stkN++] = s;
}
static void markFrom(SObj *s, int keep)
{
#define VISIT(o) do { SObj *o_ = (o); if (o_ && (keep ? o_->keep : o_->mark) != markNo) { if (keep) o_->keep = markNo; else o_->mark = markNo; stkPush(o_); } } while (0)
    ggc_size_t i;
    VISIT(s);
    while (stkN) {
        s = stk[--stkN];
        if (!keep) { liveWords += s->size; liveObjs++; }
        VISIT(s->desc);
        if (s->kind == K_DESC) { VISIT(s->user); continue; }
        for (i = H; i < s->size; i++) if (s->ref[i]) VISIT(s->ref[i]);
    }
#undef VISIT
}
/* ->mark == markNo afterwards means reachable from the roots */
static void shadowReach(void)
{
    int i;
    markNo++; liveWords = liveObjs = 0;
    for (i = 0; i < nroots; i++) if (roots[i].obj) markFrom(roots[i].obj, 0);
}
static void shadowSweep(void)
{
    SObj **p, *s;
    shadowReach();
    for (s = all; s; s = s->next) if (s->mark == markNo) s->keep = markNo;
    for (s = all; s; s = s->next) if (s->pend) markFrom(s, 1);
    for (p = &all; (s = *p);) {
        if (s->keep != markNo) { *p = s->next; nall--; freeS(s); }
        else p = &s->next;
    }
}

/* ---- verification ---- */
typedef struct { void *p; SObj *s; const char *how; } VItem;
static VItem *vs; static long vsN, vsCap;
static struct Ext { char *a; ggc_size_t n; SObj *s; } *exts; static long extN, extCap;

static void bindTo(void *p, SObj *s, const char *how)
{
    if (!p) vh_viol("lost-reference", "%s: reference to object #%u is null", how, s->id);
    if ((ggc_size_t) p % W) vh_viol("bad-address", "%s: object #%u at unaligned address %p", how, s->id, p);
    if (s->epoch == epochNo) {
        if (s->addr != p) vh_viol("identity-split", "%s: object #%u seen at %p and at %p", how, s->id, s->addr, p);
        return;
    }
    s->epoch = epochNo; s->addr = p;
    if (vsN == vsCap) { vsCap = vsCap ? vsCap * 2 : 1024; vs = (VItem *) vh_realloc(vs, vsCap * sizeof *vs); }
    vs[vsN].p = p; vs[vsN].s = s; vs[vsN].how = how; vsN++;
}

static int cmpExt(const void *a, const void *b)
{
    const struct Ext *x = (const struct Ext *) a, *y = (const struct Ext *) b;
    return x->a < y->a ? -1 : x->a > y->a;
}

static void checkDesc(struct GGGGC_Descriptor *d, SObj *s)
{
    ggc_size_t i;
    struct GGGGC_Descriptor *dd = d->header.descriptor__ptr;
    if (d->size != s->dsize) vh_viol("descriptor-damaged", "descriptor #%u: size %lu, expected %lu", s->id, (unsigned long) d->size, (unsigned long) s->dsize);
#ifndef GGGGC_FEATURE_EXTTAG
    if (s->noptrs) {
        if (d->pointers[0] & 1) vh_viol("descriptor-damaged", "descriptor #%u lost its no-pointers mark", s->id);
    } else {
        if (!(d->pointers[0] & 1)) vh_viol("descriptor-damaged", "descriptor #%u became pointer-free", s->id);
        for (i = 1; i < s->dsize; i++)
            if (((d->pointers[i / GGGGC_BITS_PER_WORD] >> (i % GGGGC_BITS_PER_WORD)) & 1) != s->layout[i])
                vh_viol("descriptor-damaged", "descriptor #%u: word %lu described wrongly", s->id, (unsigned long) i);
    }
#else
    if (s->noptrs) {
        if (d->tags[0] != 1) vh_viol("descriptor-damaged", "descriptor #%u lost its no-pointers mark", s->id);
    } else {
        for (i = 1; i < s->dsize; i++)
            if (s->tags ? d->tags[i] != s->tags[i] : (d->tags[i] & 1) != !s->layout[i])
                vh_viol("descriptor-damaged", "descriptor #%u: tag of word %lu is %d", s->id, (unsigned long) i, d->tags[i]);
    }
#endif
    if (!dd) vh_viol("descriptor-damaged", "descriptor #%u has no type", s->id);
    if (dd->size != s->size) vh_viol("descriptor-damaged", "descriptor #%u: own type has size %lu, expected %lu", s->id, (unsigned long) dd->size, (unsigned long) s->size);
}

static void checkOne(void *p, SObj *s)
{
    ggc_size_t i;
    Words o = (Words) p;
    bindTo(o->header.descriptor__ptr, s->desc, "type of object");
    if (s->kind != K_PLAIN && ((struct sizes *) p)->length != s->length)
        vh_viol("length-changed", "array #%u: length %lu, expected %lu", s->id, (unsigned long) ((struct sizes *) p)->length, (unsigned long) s->length);
    for (i = H + (s->kind != K_PLAIN); i < s->size; i++) {
        void *v = GGC_RAP(o, i - H);
        if (s->ref[i]) bindTo(v, s->ref[i], s->desc->layout[i] ? "field" : "model error");
        else if ((ggc_size_t) v != s->data[i])
            vh_viol(s->desc->layout[i] ? (s->data[i] ? "tagged-value-changed" : "null-changed") : "data-changed",
                "object #%u (kind %d, %lu words): word %lu is 0x%lx, expected 0x%lx", s->id, s->kind,
                (unsigned long) s->size, (unsigned long) i, (unsigned long) (ggc_size_t) v, (unsigned long) s->data[i]);
    }
}

static void drainV(void)
{
    while (vsN) {
        VItem it = vs[--vsN];
        if (extN == extCap) { extCap = extCap ? extCap * 2 : 1024; exts = (struct Ext *) vh_realloc(exts, extCap * sizeof *exts); }
        exts[extN].a = (char *) it.p; exts[extN].n = it.s->size * W; exts[extN].s = it.s; extN++;
#ifndef GGGGC_USE_PORTABLE_ALLOCATOR
        {
            ggc_size_t in = (ggc_size_t) it.p & GGGGC_POOL_INNER_MASK;
            if (in < offsetof(struct GGGGC_Pool, start) || in + it.s->size * W > GGGGC_POOL_BYTES)
                vh_viol("bad-address", "%s: object #%u of %lu words at %p does not lie inside a pool", it.how, it.s->id, (unsigned long) it.s->size, it.p);
        }
#endif
        if (it.s->kind == K_DESC) {
            struct GGGGC_Descriptor *d = (struct GGGGC_Descriptor *) it.p;
            checkDesc(d, it.s);
            if (it.s->user) bindTo(d->user__ptr, it.s->user, "user pointer of descriptor");
            else if ((ggc_size_t) d->user__ptr != it.s->userTag) vh_viol("null-changed", "descriptor #%u: user pointer is %p", it.s->id, d->user__ptr);
        } else checkOne(it.p, it.s);
    }
}

static void checkDisjoint(void)
{
    long i;
    uint64_t h = 0;
    if (!extN) return;
    qsort(exts, extN, sizeof *exts, cmpExt);
    for (i = 0; i + 1 < extN; i++)
        if (exts[i].a + exts[i].n > exts[i+1].a)
            vh_viol("overlap", "objects #%u (%lu bytes at %p) and #%u (at %p) overlap", exts[i].s->id, (unsigned long) exts[i].n, exts[i].a, exts[i+1].s->id, exts[i+1].a);
    for (i = 0; i < extN; i++) h = vh_hash(h, ((uint64_t) exts[i].s->size << 8) + (exts[i].s->kind << 4) + (i ? (exts[i].a == exts[i-1].a + exts[i-1].n) : 0));
    vh_distinct("heaps", h);
}

static void verify(const char *why)
{
    int i;
    epochNo++; vsN = extN = 0;
    for (i = 0; i < nroots; i++) {
        void *v = *roots[i].slot;
        if (roots[i].obj) bindTo(v, roots[i].obj, roots[i].jit ? "JIT stack slot" : "root");
        else if ((ggc_size_t) v != roots[i].tag)
            vh_viol(roots[i].tag ? "tagged-value-changed" : "null-changed", "%s %d is %p, expected 0x%lx", roots[i].jit ? "JIT slot" : "root", i, v, (unsigned long) roots[i].tag);
    }
    drainV();
    checkDisjoint();
    vh_stat("verifications", 1); vh_stat("objects_verified", extN);
    vh_stat_max("max_live_objects", extN);
    lastVerify = lastColl;
    shadowSweep();
    (void) why;
}

static void maybeVerify(void)
{
    long c = collections();
    if (c != lastColl) {
        vh_stat("collections", c - lastColl);
        lastColl = c;
        if (vh_below(&R, 100) < (unsigned) verifyEvery) verify("collection");
    }
}

/* ---- choosing things ---- */
static int pickRoot(void) { return (int) vh_below(&R, nroots); }
/* a root preferring the innermost frames */
static int pickSlot(void)
{
    int i, n = 0;
    if (vh_pct(&R, 60)) { n = nroots < 24 ? nroots : 24; return nroots - 1 - (int) vh_below(&R, n); }
    i = pickRoot(); return i;
}
/* random reachable object: returns its current address */
static void *walk(SObj **out)
{
    int i, tries, steps;
    for (tries = 0; tries < 8; tries++) {
        i = pickSlot();
        if (roots[i].obj) break;
    }
    if (tries == 8) { *out = NULL; return NULL; }
    {
        SObj *s = roots[i].obj; void *p = *roots[i].slot;
        for (steps = (int) vh_below(&R, 6); steps; steps--) {
            if (s->kind == K_DESC) {
                if (s->user && vh_pct(&R, 80)) { p = ((struct GGGGC_Descriptor *) p)->user__ptr; s = s->user; continue; }
                break;
            }
            if (vh_pct(&R, 3)) { p = ((Words) p)->header.descriptor__ptr; s = s->desc; continue; }
            {
                ggc_size_t k, n = s->size - H, st;
                if (!n) break;
                st = vh_below(&R, n);
                for (k = 0; k < n && k < 40; k++) {
                    ggc_size_t w = H + (st + k) % n;
                    if (s->ref[w]) { Words o = (Words) p; p = GGC_RAP(o, w - H); s = s->ref[w]; break; }
                }
                if (k == n || k == 40) break;
            }
        }
        *out = s;
        return p;
    }
}

static ggc_size_t pickSize(void)
{
    ggc_size_t card = ((ggc_size_t) 1 << GGGGC_CARD_SIZE) / W, s;
    switch (vh_below(&R, 20)) {
        case 0: s = 60 + vh_below(&R, 10); break;
        case 1: s = 124 + vh_below(&R, 10); break;
        case 2: s = card - 2 + vh_below(&R, 5); break;
        case 3: s = 30 + vh_below(&R, 5); break;
        case 4: s = 1 + vh_below(&R, MAXOBJ / 8); break;
        case 5: s = pBig && vh_pct(&R, pBig) ? MAXOBJ - vh_below(&R, 6) : 1 + vh_below(&R, 40); break;
        default: s = H + vh_below(&R, 10); break;
    }
    if (MAXOBJ > 65536 && s > 16384 && !vh_pct(&R, 3)) s %= 16384;
    if (s < 1) s = 1;
    if (s > MAXOBJ) s = MAXOBJ;
    return s;
}

static ggc_size_t randData(void)
{
    SObj *s; void *p;
    switch (vh_below(&R, 6)) {
        case 0: p = walk(&s); return (ggc_size_t) p;                     /* looks like a pointer */
        case 1: p = walk(&s); return (ggc_size_t) p + 1 + vh_below(&R, 7); /* like a marked or tagged one */
        case 2: p = walk(&s); return (ggc_size_t) p + W * vh_below(&R, 64);
        case 3: return vh_below(&R, 300);
        case 4: return (ggc_size_t) -1 - vh_below(&R, 3);
        default: return vh_next(&R);
    }
}

#ifdef GGGGC_FEATURE_TAGGING
static ggc_size_t randTagged(void)
{
    ggc_size_t v = randData();
    if (!(v & (W-1))) v |= 1 + vh_below(&R, W-1);
    return v;
}
#endif

/* ---- operations ---- */
static void setRoot(int i, void *p, SObj *s, ggc_size_t tag)
{
    if (roots[i].jit == 2 && s) return; /* the slot is tagged as data */
    *roots[i].slot = s ? p : (void *) tag; roots[i].obj = s; roots[i].tag = s ? 0 : tag;
}

static void *fresh(void *p, ggc_size_t size, const char *what)
{
    ggc_size_t i;
    Words o = (Words) p;
    if (!p) vh_viol("bad-allocation", "%s of %lu words: null", what, (unsigned long) size);
    if ((ggc_size_t) p % W) vh_viol("bad-allocation", "%s at unaligned %p", what, p);
    for (i = H; i < size; i++)
        if (o->a__ptrs[i-H]) vh_viol("not-zeroed", "%s of %lu words: word %lu is %p", what, (unsigned long) size, (unsigned long) i, o->a__ptrs[i-H]);
    vh_stat("fresh_checked", 1);
    return p;
}
static void freshDesc(void *p, void *d, const char *what)
{
    if (((Words) p)->header.descriptor__ptr != d) vh_viol("wrong-type", "%s: new object has type %p, expected %p", what, (void *) ((Words) p)->header.descriptor__ptr, d);
}

static SObj *shadowDesc(ggc_size_t size, unsigned char *layout, unsigned char *tags, int noptrs)
{
    ggc_size_t req = noptrs ? 1 : GGGGC_DESCRIPTOR_WORDS_REQ(size);
    SObj *s;
    ggc_size_t own = GGGGC_WORD_SIZEOF(struct GGGGC_Descriptor) + req - 1;
    s = newS(K_DESC, own, NULL);
    s->dsize = size; s->layout = layout; s->tags = tags; s->noptrs = noptrs;
    return s;
}

/* make a descriptor and put it in a root */
static void opDesc(int slot)
{
    ggc_size_t size = pickSize(), i, want;
    unsigned char *layout, *tags = NULL; int noptrs = 0, dens = (int) vh_below(&R, 101);
    struct GGGGC_Descriptor *d; SObj *s;
    want = size;
    if (size < MINOBJ) size = MINOBJ;
    layout = (unsigned char *) vh_calloc(size, 1);
    layout[0] = 1;
    for (i = H; i < want; i++) layout[i] = vh_pct(&R, dens);
    if (vh_pct(&R, 30) && want > H) layout[want-1] = 1;
    if (vh_pct(&R, 20) && want > 64) layout[64] = 1, layout[63] = (unsigned char) vh_below(&R, 2);
#ifdef GGGGC_FEATURE_EXTTAG
    if (vh_pct(&R, 60)) {
        unsigned char *utags;
        tags = (unsigned char *) vh_calloc(size, 1);
        for (i = 0; i < size; i++) tags[i] = (unsigned char) ((vh_below(&R, 126) << 1) | (layout[i] ? 0 : 1));
        if (vh_pct(&R, 30)) for (i = H; i < want; i++) tags[i] = (unsigned char) (layout[i] ? (vh_pct(&R, 50) ? 250 : 0) : (vh_pct(&R, 50) ? 251 : 1));
        /* exactly as many tags as the user's type has words */
        utags = (unsigned char *) vh_malloc(want);
        memcpy(utags, tags, want);
        d = GGC_NEW_DESCRIPTOR_WITH_TAGS(want, utags);
        vh_free(utags);
        if (want < size) for (i = want; i < size; i++) tags[i] = d->tags[i], layout[i] = !(d->tags[i] & 1);
        /* what the words added to reach the minimum size are described as is no matter, as they stay zero */
    } else
#endif
    if (vh_pct(&R, 15)) {
        noptrs = 1;
        for (i = 1; i < size; i++) layout[i] = 0;
        d = vh_pct(&R, 50) ? GGC_NEW_DESCRIPTOR(want, NULL) : ggggc_allocateDescriptorDA(want);
    } else if (want <= GGGGC_BITS_PER_WORD && vh_pct(&R, 50)) {
        ggc_size_t bits = 0;
        for (i = 1; i < want; i++) if (layout[i]) bits |= (ggc_size_t) 1 << i;
        d = ggggc_allocateDescriptor(want, bits);
    } else {
        ggc_size_t n = (want + GGGGC_BITS_PER_WORD - 1) / GGGGC_BITS_PER_WORD, *b = (ggc_size_t *) vh_calloc(n, W);
        for (i = 1; i < want; i++) if (layout[i]) b[i / GGGGC_BITS_PER_WORD] |= (ggc_size_t) 1 << (i % GGGGC_BITS_PER_WORD);
        d = GGC_NEW_DESCRIPTOR(want, b);
        vh_free(b);
    }
    s = shadowDesc(size, layout, tags, noptrs);
    if (d->user__ptr) vh_viol("not-zeroed", "new descriptor has user pointer %p", d->user__ptr);
    checkDesc(d, s);
    setRoot(slot, d, s, 0);
    vh_stat("op_descriptor", 1);
    maybeVerify();
}

static void fillRandomData(void *p, SObj *s)
{
    ggc_size_t i, st = H + (s->kind != K_PLAIN), k, n;
    DWords o = (DWords) p;
    if (s->size <= st) return;
    n = s->size - st;
    for (k = 0; k < n && k < 24; k++) {
        i = st + vh_below(&R, n);
        if (k == 0) i = s->size - 1;
        if (k == 1) i = st;
        if (!s->desc->layout[i] && !(s->idWord && i == H)) {
            ggc_size_t v = pPtrData ? randData() : vh_next(&R);
            if (s->kind == K_DA && (i + 1 == s->size)) {
                /* the last word may be partly padding: leave it */
                continue;
            }
            GGC_WAD(o, i - H, v);
            s->data[i] = v;
        }
    }
}

/* a type to allocate from: any descriptor in a root, or that of an object */
static int findDesc(SObj **ds)
{
    int i, t;
    for (t = 0; t < 12; t++) {
        i = pickSlot();
        if (roots[i].obj && roots[i].obj->kind == K_DESC) { *ds = roots[i].obj; return i; }
    }
    for (i = 0; i < nroots; i++) if (roots[i].obj && roots[i].obj->kind == K_DESC) { *ds = roots[i].obj; return i; }
    return -1;
}

static void opAlloc(int slot)
{
    SObj *ds, *s; void *p; struct GGGGC_Descriptor *d;
    SObj *ws; void *wp = vh_pct(&R, 50) ? walk(&ws) : (ws = NULL, (void *) NULL);
    if (ws && ws->kind == K_PLAIN) { d = ((Words) wp)->header.descriptor__ptr; ds = ws->desc; }
    else {
        int i = findDesc(&ds);
        if (i < 0) { opDesc(slot); return; }
        d = (struct GGGGC_Descriptor *) *roots[i].slot;
    }
    /* array types carry a length word this would not set: use them only as arrays */
    if (ds->id & 0x80000000u) return;
    {
        int save = nroots;
        GGC_PUSH_1(d);
        /* finalizers may run in here and change any root */
        addRoot((void **) (void *) &d); roots[save].obj = ds;
        p = GGC_NEW_FROM_DESCRIPTOR(d);
        fresh(p, ds->dsize, "object"); freshDesc(p, d, "object");
        nroots = save;
        GGC_POP();
    }
    s = newS(K_PLAIN, ds->dsize, ds);
    setRoot(slot, p, s, 0);
    fillRandomData(p, s);
    vh_stat("op_alloc", 1); vh_distinct("sizes", ds->dsize);
    maybeVerify();
}

static void opArray(int slot, int da)
{
    ggc_size_t size = pickSize(), n, words, i; void *p; SObj *s, *ds; unsigned char *layout;
    struct GGGGC_Descriptor *d;
    if (size < H + 1) size = H + 1;
    n = size - H - 1;
    if (da) {
        ggc_size_t el = (ggc_size_t) 1 << vh_below(&R, 4), cnt;
        cnt = n * W / el;
        if (cnt && el < W && vh_pct(&R, 60)) cnt -= vh_below(&R, W / el);
        words = (cnt * el + W - 1) / W;
        switch (el) {
            case 1: { GGC_char_Array a = GGC_NEW_DA(char, cnt); p = a; break; }
            case 2: { GGC_short_Array a = GGC_NEW_DA(short, cnt); p = a; break; }
            case 4: { GGC_int_Array a = GGC_NEW_DA(int, cnt); p = a; break; }
            default: { GGC_size_t_Array a = GGC_NEW_DA(size_t, cnt); p = a; break; }
        }
        n = cnt; size = words + H + 1;
    } else {
        GGC_voidpArray a = GGC_NEW_PA(GGC_voidp, n);
        p = a;
    }
    if (((struct sizes *) p)->length != n) vh_viol("wrong-length", "new array: length %lu, expected %lu", (unsigned long) ((struct sizes *) p)->length, (unsigned long) n);
    d = ((Words) p)->header.descriptor__ptr;
    if (size < MINOBJ) size = MINOBJ;
    if (d->size != size) vh_viol("wrong-type", "new array of %lu elements: type says %lu words, expected %lu", (unsigned long) n, (unsigned long) d->size, (unsigned long) size);
    {
        ggc_size_t save = ((struct sizes *) p)->length;
        ((struct sizes *) p)->length = 0; /* only for the zero check */
        fresh(p, size, da ? "data array" : "pointer array");
        ((struct sizes *) p)->length = save;
    }
    layout = (unsigned char *) vh_calloc(size, 1);
    layout[0] = 1;
    /* words beyond the length exist in the type only as padding up to the minimum size */
    if (!da) for (i = H + 1; i < size; i++) layout[i] = 1;
    ds = shadowDesc(size, layout, NULL, da);
    ds->id |= 0x80000000u;
    checkDesc(d, ds);
    s = newS(da ? K_DA : K_PA, size, ds);
    s->length = n;
    setRoot(slot, p, s, 0);
    if (da) fillRandomData(p, s);
    vh_stat(da ? "op_data_array" : "op_ptr_array", 1); vh_distinct("sizes", size);
    maybeVerify();
}

static void opStore(void)
{
    SObj *s, *vsh; void *p, *v; ggc_size_t w, k; ggc_size_t tag = 0;
    p = walk(&s);
    if (!s || s->kind == K_DESC) return;
    {
        ggc_size_t st = H + (s->kind != K_PLAIN), n;
        if (s->size <= st) return;
        n = s->size - st;
        w = st + vh_below(&R, n);
        if (vh_pct(&R, 15)) w = s->size - 1;
        for (k = 0; k < n && k < 200 && !s->desc->layout[w]; k++) w = st + (w - st + 1) % n;
        if (!s->desc->layout[w]) return;
        if (s->kind == K_PA && w - H - 1 >= s->length) return;
    }
    if (vh_pct(&R, 12)) { vsh = NULL; v = NULL; }
    else {
        /* prefer young values: the most recent roots */
        if (vh_pct(&R, 60)) { int i = nroots - 1 - (int) vh_below(&R, nroots < 16 ? nroots : 16); vsh = roots[i].obj; v = vsh ? *roots[i].slot : NULL; }
        else v = walk(&vsh);
    }
#ifdef GGGGC_FEATURE_TAGGING
    if (vh_pct(&R, pTag)) { vsh = NULL; tag = randTagged(); v = (void *) tag; }
#endif
    {
        if (s->kind == K_PA && vh_pct(&R, 50)) {
            GGC_voidpArray a = (GGC_voidpArray) p;
            GGC_WAP(a, w - H - 1, v);
        } else {
            Words o = (Words) p;
            GGC_WAP(o, w - H, v);
        }
    }
    s->ref[w] = vsh; s->data[w] = vsh ? 0 : tag;
    vh_stat("op_store", 1);
}

/* let the heap grow by many objects that refer to one another */
static long growN;
static void opGrow(void)
{
    int a = pickSlot(), b = pickSlot(); long n = 1 + (long) vh_below(&R, (uint64_t) growN);
    if (a == b || liveWords > liveLimit) return;
#ifdef GGGGC_FEATURE_JITPSTACK
    if (roots[a].jit == 2 || roots[b].jit == 2) return;
#endif
    while (n-- > 0) {
        SObj *s, *t; void *p, *v; ggc_size_t w, k, st, m;
        if (vh_pct(&R, 12)) opArray(b, 0); else opAlloc(b);
        s = roots[b].obj; p = *roots[b].slot; t = roots[a].obj; v = *roots[a].slot;
        if (!s || s->kind == K_DESC) continue;
        if (s->size > 4096 && s->size > MAXOBJ / 16) continue;
        st = H + (s->kind != K_PLAIN);
        if (s->size <= st) continue;
        m = s->size - st;
        w = vh_pct(&R, 30) ? s->size - 1 : st + vh_below(&R, m);
        for (k = 0; k < m && k < 200 && !s->desc->layout[w]; k++) w = st + (w - st + 1) % m;
        if (!s->desc->layout[w] || (s->kind == K_PA && w - H - 1 >= s->length)) continue;
        if (t) { Words o = (Words) p; GGC_WAP(o, w - H, v); s->ref[w] = t; s->data[w] = 0; }
        setRoot(a, p, s, 0);
        liveWords += (long) s->size;
        if (liveWords > liveLimit) break;
    }
    vh_stat("op_grow", 1);
}

static void opUser(void)
{
    SObj *s, *vsh; void *p, *v; ggc_size_t tag = 0;
    p = walk(&s);
    if (!s || s->kind == K_DESC) return;
    v = walk(&vsh);
    if (vh_pct(&R, 30)) { v = NULL; vsh = NULL; }
#ifdef GGGGC_FEATURE_TAGGING
    if (vh_pct(&R, pTag)) { vsh = NULL; tag = randTagged(); v = (void *) tag; }
#endif
    { Words o = (Words) p; GGC_WUP(o, v); if (GGC_RUP(o) != v) vh_viol("lost-reference", "user pointer does not read back"); }
    s->desc->user = vsh; s->desc->userTag = vsh ? 0 : tag;
    vh_stat("op_user", 1);
}

static void opData(void)
{
    SObj *s; void *p = walk(&s);
    if (!s || s->kind == K_DESC) return;
    fillRandomData(p, s);
    vh_stat("op_data", 1);
}

static void opRoot(void)
{
    int i = pickSlot(); SObj *s; void *p;
    switch (vh_below(&R, 4)) {
        case 0: setRoot(i, NULL, NULL, 0); break;
#ifdef GGGGC_FEATURE_TAGGING
        case 1: if (pTag) { setRoot(i, NULL, NULL, randTagged()); break; }
        /* fallthrough */
#endif
        default: p = walk(&s); setRoot(i, p, s, 0); break;
    }
    vh_stat("op_root", 1);
}

/* allocate garbage until something was collected or a pool's worth is gone */
static void opBurst(void)
{
    long c0 = collections(), words = 0, lim = (long) (POOLCAP * (1 + vh_below(&R, 3)));
    int until = vh_pct(&R, 60);
    if (until) lim = (long) POOLCAP * 8;
    while (words < lim) {
        ggc_size_t n = vh_below(&R, 10) ? 1 + vh_below(&R, 60) : 1 + vh_below(&R, MAXOBJ / 4), k;
        GGC_size_t_Array a = GGC_NEW_DA(size_t, n);
        /* junk everywhere, so that anything wrongly freed is overwritten */
        ggc_size_t j = vh_next(&R) | ((ggc_size_t) 1 << 62);
        for (k = 0; k < n; k++) GGC_WAD(a, k, j);
        words += (long) n + 8;
        if (until && collections() != c0) break;
    }
    vh_stat("op_burst", 1);
    maybeVerify();
}

/* ---- finalizers ---- */
#ifdef GGGGC_FEATURE_FINALIZERS
static int inFin; static long finRuns;
static void *resSlots[8]; static int resRoot; /* root index of resSlots */
static SObj *byId(unsigned id) { SObj *s; for (s = all; s; s = s->next) if (s->id == id) return s; return NULL; }
static void opAny(void);

static void attachAgain(void *obj, int k);
static void finalizerRan(int k, void *obj)
{
    SObj *s; ggc_size_t id = 0;
    GGC_PUSH_1(obj);
    if (!obj) vh_viol("finalizer-null", "finalizer %d called with null", k);
    id = ((DWords) obj)->a__data[0];
    s = byId((unsigned) (id ^ 0x5A5A0000));
    if (!s || (id >> 32)) vh_viol("finalizer-garbage", "finalizer %d called with an object that carries id 0x%lx: not one with a pending finalizer", k, (unsigned long) id);
    if (!s->att[k]) vh_viol("finalizer-twice", "finalizer %d of object #%u ran %s", k, s->id, s->ran[k] ? "twice" : "without having been attached");
    shadowReach();
    if (s->mark == markNo && !s->dead[k]) vh_viol("finalizer-early", "finalizer %d of object #%u ran while the object is reachable", k, s->id);
    /* everything unreachable now may have been found dead by the same collection */
    {
        SObj *t; int j;
        for (t = all; t; t = t->next) if (t->pend && t->mark != markNo) for (j = 0; j < 8; j++) t->dead[j] = t->att[j];
    }
    s->att[k]--; s->ran[k] = 1; s->pend--;
    if (s->dead[k]) s->dead[k]--;
    if (s->old[k]) s->old[k]--;
    finRuns++; vh_stat("finalizers_run", 1);
    /* the object and all it refers to must be intact */
    epochNo++; vsN = extN = 0;
    bindTo(obj, s, "argument of finalizer");
    drainV();
    vh_stat("finalizer_objects_verified", extN);
    inFin++;
    if (vh_pct(&R, 15)) { /* resurrect */
        int i = resRoot + (int) vh_below(&R, 8);
        setRoot(i, obj, s, 0);
        vh_stat("resurrected", 1);
    }
    if (vh_pct(&R, 12)) { /* once more */
        int j = (int) vh_below(&R, 8);
        if (s->att[j] < 3) {
            s->att[j]++; s->pend++;
            attachAgain(obj, j);
            vh_stat("finalizers_attached_again", 1);
        }
    }
    if (inFin < 3 && vh_pct(&R, 15)) {
        /* allocate (and sometimes collect) inside the finalizer; the object is
         * held by this frame and by the pending list */
        int save = nroots;
        addRoot(&obj); roots[save].obj = s;
        if (vh_pct(&R, 60)) opBurst(); else if (vh_pct(&R, 50)) { GGC_COLLECT(); maybeVerify(); } else opArray(resRoot + (int) vh_below(&R, 8), 0);
        nroots = save;
    }
    inFin--;
    /* what a resurrected object made reachable need not be found dead by the
     * collections still to come, even if it's let go of again after them */
    shadowReach();
    for (s = all; s; s = s->next) if (s->mark == markNo) memset(s->old, 0, 8);
    GGC_POP();
}
#define FN(k) static void fin##k(void *o) { finalizerRan(k, o); }
FN(0) FN(1) FN(2) FN(3) FN(4) FN(5) FN(6) FN(7)
static ggc_finalizer_t fins[8] = { fin0, fin1, fin2, fin3, fin4, fin5, fin6, fin7 };

static void attachAgain(void *obj, int k) { GGC_FINALIZE(obj, fins[k]); }

static void opFin(void)
{
    SObj *s; void *p; int k = (int) vh_below(&R, 8);
    p = walk(&s);
    if (!s || s->kind != K_PLAIN || s->size <= H || s->desc->layout[H]) return;
    if (s->att[k] == (vh_pct(&R, 70) ? 1 : 3)) return;
    { ggc_size_t v = (ggc_size_t) (s->id ^ 0x5A5A0000); DWords o = (DWords) p; GGC_WAD(o, 0, v); s->data[H] = v; s->idWord = 1; }
    {
        /* hold it while attaching */
        int save = nroots; void *hold = p;
        GGC_PUSH_1(hold);
        addRoot(&hold); roots[save].obj = s;
        GGC_FINALIZE(hold, fins[k]);
        s->att[k]++; s->pend++;
        vh_stat("finalizers_attached", 1);
        nroots = save;
        GGC_POP();
    }
    maybeVerify();
}
#endif

static void opCollect(void)
{
#ifdef GGGGC_FEATURE_FINALIZERS
    SObj *s; int k;
    if (!inFin) {
        shadowReach();
        for (s = all; s; s = s->next) {
            s->keep = (s->pend && s->mark != markNo) ? 0xFFFFFFFFu : 0;
            if (s->keep) memcpy(s->old, s->att, 8);
        }
    }
#endif
    GGC_COLLECT();
    vh_stat("op_collect", 1);
#ifdef GGGGC_FEATURE_FINALIZERS
    if (!inFin) {
        shadowReach();
        for (s = all; s; s = s->next)
            if (s->keep == 0xFFFFFFFFu && s->mark != markNo) {
                for (k = 0; k < 8; k++) if (s->old[k])
                    vh_viol("finalizer-late", "object #%u was unreachable before an explicit full collection, and its finalizer %d has not run", s->id, k);
                vh_stat("prompt_deaths", 1);
            }
        for (s = all; s; s = s->next) { s->keep = 0; memset(s->old, 0, 8); }
    }
#endif
    maybeVerify();
}

/* ---- JIT pointer stack ---- */
#ifdef GGGGC_FEATURE_JITPSTACK
#define JITSZ 512
static void *jitSpace[JITSZ];
static int jitFrames[JITSZ], nJit; /* roots per frame */
static int jitWords[JITSZ];
static int jitRootIdx;             /* JIT roots live in a region of their own */
static Root jitRoots[JITSZ]; static int nJitRoots;
#endif

/* The JIT slots are appended to roots[] only while verifying/reaching; keeping
 * them apart keeps the frame discipline of roots[] simple. */
static void jitAttach(void)
{
#ifdef GGGGC_FEATURE_JITPSTACK
    int i;
    jitRootIdx = nroots;
    for (i = 0; i < nJitRoots; i++) { if (nroots == MAXROOT) vh_bug("roots"); roots[nroots++] = jitRoots[i]; }
#endif
}
static void jitDetach(void)
{
#ifdef GGGGC_FEATURE_JITPSTACK
    int i;
    for (i = 0; i < nJitRoots; i++) jitRoots[i] = roots[jitRootIdx + i];
    nroots = jitRootIdx;
#endif
}

#ifdef GGGGC_FEATURE_JITPSTACK
static void jitInit(void)
{
    int i;
    for (i = 0; i < JITSZ; i++) jitSpace[i] = (void *) (ggc_size_t) (0x1000 + 8 * i);
    ggc_jitPointerStack = ggc_jitPointerStackEnd = jitSpace + JITSZ;
}
/* called with the JIT roots detached */
static void opJitPush(void)
{
    int n = (int) vh_below(&R, 12), i, words;
#ifdef GGGGC_FEATURE_EXTTAG
    int groups = (n + 7) / 8;
    if (!groups) groups = 1;
    words = n + groups;
#else
    words = n;
#endif
    if (ggc_jitPointerStack - words < jitSpace || nJit == JITSZ) return;
    if (nJitRoots + n > JITSZ) return;
    ggc_jitPointerStack -= words;
    {
        void **sp = ggc_jitPointerStack;
#ifdef GGGGC_FEATURE_EXTTAG
        int done = 0, g;
        for (g = 0; g < groups; g++) {
            int k = n - done, j; ggc_size_t tags = 0; ggc_size_t *tw = (ggc_size_t *) sp++;
            if (k > 8) k = 8;
            for (j = 0; j < 8; j++) {
                unsigned char t;
                if (j < k) {
                    SObj *s = NULL; void *p = NULL; Root *r = &jitRoots[nJitRoots++];
                    int isp = vh_pct(&R, 60);
                    r->slot = sp; r->jit = 1; r->obj = NULL; r->tag = 0;
                    if (isp) { if (vh_pct(&R, 85)) p = walk(&s); t = (unsigned char) (2 * vh_below(&R, 126)); r->obj = s; *sp = p; }
                    else { ggc_size_t v = randData(); t = (unsigned char) (2 * vh_below(&R, 126) + 1); r->tag = v; r->jit = 2; *sp = (void *) v; }
                    sp++;
                } else if (j == k) t = 0xFF;
                else t = (unsigned char) vh_below(&R, 256);
                tags |= (ggc_size_t) t << (8 * j);
            }
            *tw = tags;
            done += k;
        }
        (void) i;
#else
        for (i = 0; i < n; i++, sp++) {
            Root *r = &jitRoots[nJitRoots++]; SObj *s = NULL; void *p = NULL;
            r->slot = sp; r->jit = 1; r->obj = NULL; r->tag = 0;
            if (vh_pct(&R, 85)) p = walk(&s);
#ifdef GGGGC_FEATURE_TAGGING
            if (vh_pct(&R, 30)) { s = NULL; r->tag = randTagged(); p = (void *) r->tag; }
#endif
            r->obj = s; *sp = s || r->tag ? p : NULL;
        }
#endif
    }
    jitWords[nJit] = words; jitFrames[nJit++] = n;
    vh_stat("op_jit_push", 1);
}
static void opJitPop(void)
{
    if (!nJit) return;
    nJit--;
    ggc_jitPointerStack += jitWords[nJit];
    nJitRoots -= jitFrames[nJit];
    /* stale values stay below the top */
    vh_stat("op_jit_pop", 1);
}
#endif

/* ---- frames ---- */
static void body(int depth);
static void frameOf(int n, int depth);

static void opGlobalize(void);
static int pGrow;

static void opOne(int depth)
{
    int tot = pAlloc + pArr + pDA + pDesc + pStore + pData + pUser + pRoot + pCollect + pBurst + pFrame + pFin + pJit + pGlob + pGrow, x;
    x = (int) vh_below(&R, tot);
    opsLeft--;
    jitAttach();
#define OP(p, what) if ((x -= (p)) < 0) { what; goto done; }
    OP(pAlloc, opAlloc((int) (pickSlot())))
    OP(pArr, opArray(pickSlot(), 0))
    OP(pDA, opArray(pickSlot(), 1))
    OP(pDesc, opDesc(vh_pct(&R, 50) ? (int) vh_below(&R, 8) : pickSlot()))
    OP(pStore, { int k; for (k = 0; k < 6; k++) opStore(); })
    OP(pData, opData())
    OP(pUser, opUser())
    OP(pGrow, opGrow())
    OP(pRoot, opRoot())
    OP(pCollect, opCollect())
    OP(pBurst, opBurst())
#ifdef GGGGC_FEATURE_FINALIZERS
    OP(pFin, opFin())
#endif
    jitDetach();
#ifdef GGGGC_FEATURE_JITPSTACK
    OP(pJit, { if (vh_pct(&R, 55)) opJitPush(); else opJitPop(); goto nodetach; })
#endif
    OP(pGlob, { opGlobalize(); goto nodetach; })
    if (depth < maxDepth) { int fr = vh_below(&R, 10) ? (int) vh_below(&R, 36) : 36 + (int) vh_below(&R, 4); frameOf(fr, depth + 1); vh_stat("op_frame", 1); }
    goto nodetach;
done:
    jitDetach();
nodetach:
    if (shadowWords > (8L << 20)) { jitAttach(); shadowSweep(); jitDetach(); shadowWords = 0; }
    /* keep the live data bounded */
    if ((opsLeft & 63) == 0) {
        jitAttach(); shadowReach(); jitDetach();
        vh_stat_max("max_live_words", liveWords);
        if (liveWords > liveLimit) {
            int k;
            for (k = 0; k < nroots; k++) if (vh_pct(&R, 60) && k >= 8) setRoot(k, NULL, NULL, 0);
            vh_stat("live_cuts", 1);
        }
    }
}

static void body(int depth)
{
    long n = depth ? 4 + (long) vh_below(&R, 60) : 1L << 30;
    while (n-- > 0 && opsLeft > 0) {
        opOne(depth);
        if (depth && vh_pct(&R, 1)) return; /* early return */
    }
}

#define CALL(f, ...) f(__VA_ARGS__)
#define L1 r[0]
#define L2 L1, r[1]
#define L3 L2, r[2]
#define L4 L3, r[3]
#define L5 L4, r[4]
#define L6 L5, r[5]
#define L7 L6, r[6]
#define L8 L7, r[7]
#define L9 L8, r[8]
#define L10 L9, r[9]
#define L11 L10, r[10]
#define L12 L11, r[11]
#define L13 L12, r[12]
#define L14 L13, r[13]
#define L15 L14, r[14]
#define L16 L15, r[15]

#define FRAME(n) \
static void frame##n(int depth) { \
    void *r[n]; int i, base = nroots; \
    for (i = 0; i < n; i++) r[i] = NULL; \
    CALL(GGC_PUSH_##n, L##n); \
    for (i = 0; i < n; i++) addRoot(&r[i]); \
    body(depth); \
    nroots = base; \
    if (vh_pct(&R, 50)) { return; } \
    GGC_POP(); \
} \
static void mframe##n(int depth) { \
    void *r[n]; int i, base = nroots; \
    for (i = 0; i < n; i++) r[i] = NULL; \
    CALL(GGC_PUSH_MANUAL_##n, L##n); \
    for (i = 0; i < n; i++) addRoot(&r[i]); \
    body(depth); \
    nroots = base; \
    GGC_POP_MANUAL(); \
}
FRAME(1) FRAME(2) FRAME(3) FRAME(4) FRAME(5) FRAME(6) FRAME(7) FRAME(8)
FRAME(9) FRAME(10) FRAME(11) FRAME(12) FRAME(13) FRAME(14) FRAME(15) FRAME(16)

/* several scopes with frames of their own in one function, in a loop */
static void scopes(int depth)
{
    int k, base = nroots;
    for (k = 0; k < 3; k++) {
        void *r[2] = { NULL, NULL };
        GGC_PUSH_2(r[0], r[1]);
        addRoot(&r[0]); addRoot(&r[1]);
        body(depth);
        {
            void *q[3] = { NULL, NULL, NULL };
            GGC_PUSH_3(q[0], q[1], q[2]);
            addRoot(&q[0]); addRoot(&q[1]); addRoot(&q[2]);
            body(depth);
            nroots -= 3;
            GGC_POP();
        }
        nroots = base;
#ifndef VH_PORTC
        if (vh_pct(&R, 20)) continue;
#endif
        GGC_POP();
    }
}

/* the same object named by several roots, and roots naming other roots' objects */
static void aliases(int depth)
{
    int base = nroots; void *a = NULL, *b = NULL, *c = NULL; SObj *s;
    GGC_PUSH_3(a, b, c);
    addRoot(&a); addRoot(&b); addRoot(&c);
    jitAttach(); a = walk(&s); jitDetach();
    b = c = a;
    roots[base].obj = roots[base+1].obj = roots[base+2].obj = s;
    if (!s) roots[base].tag = 0;
    body(depth);
    nroots = base;
    GGC_POP();
}

static void countedFrame(int depth)
{
#ifdef VH_PUSH_N
    int i, base = nroots;
    void *a[5] = { NULL, NULL, NULL, NULL, NULL };
#define PTRS { &a[0], &a[1], &a[2], &a[3], &a[4] }
    GGC_PUSH_N(5, PTRS);
    for (i = 0; i < 5; i++) addRoot(&a[i]);
    body(depth);
    nroots = base;
    GGC_POP();
#else
    frame5(depth);
#endif
}

typedef void (*framefn)(int);
static framefn frames[40] = {
    frame1, frame2, frame3, frame4, frame5, frame6, frame7, frame8,
    frame9, frame10, frame11, frame12, frame13, frame14, frame15, frame16,
    mframe1, mframe2, mframe3, mframe4, mframe5, mframe6, mframe7, mframe8,
    mframe9, mframe10, mframe11, mframe12, mframe13, mframe14, mframe15, mframe16,
    frame1, frame2, frame3, scopes, scopes, aliases, countedFrame, countedFrame
};
static void frameOf(int n, int depth) { vh_distinct("frames", (uint64_t) n * 64 + depth); frames[n](depth); }

/* globals: their indexes in roots[] are fixed, as they are added in the base
 * region. Those not globalized yet are held by slots of a frame in the meantime. */
#define NGLOB 36
static void *globals[NGLOB], *later[16]; static int nglob, globRoot;
#define G(i) globals[nglob + (i)]
static void globalize(int n)
{
#define C(k, ...) case k: { GGC_PUSH_##k(__VA_ARGS__); GGC_GLOBALIZE(); GGC_POP(); } break;
    switch (n) {
        C(1, G(0))
        C(2, G(0), G(1))
        C(3, G(0), G(1), G(2))
        C(4, G(0), G(1), G(2), G(3))
        C(5, G(0), G(1), G(2), G(3), G(4))
        C(6, G(0), G(1), G(2), G(3), G(4), G(5))
        C(7, G(0), G(1), G(2), G(3), G(4), G(5), G(6))
        C(8, G(0), G(1), G(2), G(3), G(4), G(5), G(6), G(7))
        C(9, G(0), G(1), G(2), G(3), G(4), G(5), G(6), G(7), G(8))
        C(10, G(0), G(1), G(2), G(3), G(4), G(5), G(6), G(7), G(8), G(9))
        C(11, G(0), G(1), G(2), G(3), G(4), G(5), G(6), G(7), G(8), G(9), G(10))
        C(12, G(0), G(1), G(2), G(3), G(4), G(5), G(6), G(7), G(8), G(9), G(10), G(11))
        C(13, G(0), G(1), G(2), G(3), G(4), G(5), G(6), G(7), G(8), G(9), G(10), G(11), G(12))
        C(14, G(0), G(1), G(2), G(3), G(4), G(5), G(6), G(7), G(8), G(9), G(10), G(11), G(12), G(13))
        C(15, G(0), G(1), G(2), G(3), G(4), G(5), G(6), G(7), G(8), G(9), G(10), G(11), G(12), G(13), G(14))
        C(16, G(0), G(1), G(2), G(3), G(4), G(5), G(6), G(7), G(8), G(9), G(10), G(11), G(12), G(13), G(14), G(15))
    }
#undef C
    nglob += n;
    vh_stat("op_globalize", 1);
    vh_distinct("globalized", (uint64_t) n);
}
#undef G
static int nlater;
static void opGlobalize(void)
{
    int i, n = 1 + (int) vh_below(&R, 16);
    if (nlater == 16) return;
    if (n > 16 - nlater) n = 16 - nlater;
    for (i = 0; i < n; i++) {
        int r = globRoot + nglob + i;
        if (roots[r].slot != &later[nlater + i]) vh_bug("globals out of order");
        globals[nglob + i] = later[nlater + i];
        later[nlater + i] = NULL;
        roots[r].slot = &globals[nglob + i];
    }
    nlater += n;
    globalize(n);
}

static void run(void)
{
    void *d[8] = {0}; int i;
    GGC_PUSH_8(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
    for (i = 0; i < 8; i++) addRoot(&d[i]);
    /* the first globals are made right away so that they are roots from here on */
    globRoot = nroots;
    globalize(1 + (int) vh_below(&R, 16));
    for (i = 0; i < nglob; i++) addRoot(&globals[i]);
    for (i = 0; i < 16; i++) addRoot(&later[i]);
#ifdef GGGGC_FEATURE_FINALIZERS
    resRoot = nroots;
    { GGC_PUSH_8(resSlots[0], resSlots[1], resSlots[2], resSlots[3], resSlots[4], resSlots[5], resSlots[6], resSlots[7]); GGC_GLOBALIZE(); GGC_POP(); }
    for (i = 0; i < 8; i++) addRoot(&resSlots[i]);
#endif
    for (i = 0; i < 6; i++) opDesc(i);
    body(0);
    jitAttach();
    opCollect();
    verify("end");
    for (i = 0; i < nroots; i++) setRoot(i, NULL, NULL, 0);
    opCollect(); opCollect();
    verify("empty");
    jitDetach();
    GGC_POP();
}

int main(int argc, char **argv)
{
    const char *prof;
    vh_init(argc, argv);
    R.s = (uint64_t) vh_arg("seed", 1) * 1000003;
    opsLeft = vh_arg("ops", 3000);
    vh_junk = (int) vh_arg("junk", 1);
    liveLimit = (long) POOLCAP * vh_arg("live", 6);
    growN = vh_arg("grow", 0); pGrow = growN ? 3 : 0;
    maxDepth = (int) vh_arg("depth", 12);
    verifyEvery = (int) vh_arg("verify", 100);
    prof = vh_sarg("profile", "mixed");
    pAlloc = 22; pArr = 6; pDA = 5; pDesc = 3; pStore = 26; pData = 4; pUser = 2; pRoot = 10; pCollect = 1; pBurst = 5; pFrame = 8; pGlob = 1; pBig = 10; pPtrData = 1;
#ifdef GGGGC_FEATURE_FINALIZERS
    pFin = 6;
#endif
#ifdef GGGGC_FEATURE_TAGGING
    pTag = 20;
#endif
#ifdef GGGGC_FEATURE_JITPSTACK
    pJit = 8;
#endif
    if (!strcmp(prof, "store")) { pStore = 60; pBurst = 14; pRoot = 16; pArr = 12; pCollect = 1; pUser = 5; }
    else if (!strcmp(prof, "desc")) { pDesc = 14; pAlloc = 26; pData = 14; pUser = 4; pCollect = 2; }
    else if (!strcmp(prof, "roots")) { pFrame = 30; pRoot = 24; pCollect = 2; pBurst = 7; pGlob = 2; }
    else if (!strcmp(prof, "fin")) { pFin = 22; pCollect = 3; pRoot = 18; pDesc = 3; pBurst = 6; }
    else if (!strcmp(prof, "alloc")) { pAlloc = 40; pArr = 20; pDA = 20; pBig = 50; pBurst = 8; pDesc = 8; }
    else if (!strcmp(prof, "jit")) { pJit = 30; pRoot = 14; pBurst = 8; pCollect = 2; }
    else if (!strcmp(prof, "tag")) { pTag = 50; pRoot = 16; pUser = 5; pBurst = 7; pCollect = 2; }
#ifndef GGGGC_FEATURE_FINALIZERS
    pFin = 0;
#endif
#ifndef GGGGC_FEATURE_JITPSTACK
    pJit = 0;
#else
    jitInit();
#endif
    vh_sample("graph profile=%s seed=%ld ops=%ld poolbytes=%lu cap=%lu", prof, vh_arg("seed", 1), opsLeft, (unsigned long) GGGGC_POOL_BYTES, (unsigned long) MAXOBJ);
    vh_stat("ops", opsLeft);
    {
        GGC_PUSH_16(later[0], later[1], later[2], later[3], later[4], later[5], later[6], later[7],
            later[8], later[9], later[10], later[11], later[12], later[13], later[14], later[15]);
        run();
        GGC_POP();
    }
    vh_done();
    return 0;
}
