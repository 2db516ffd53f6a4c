/* Types declared with the type macros: every pointer position and all kinds of
 * layouts; arrays of data of all element sizes. Data words hold what looks like
 * addresses of objects. Objects of all types refer to each other; a model says
 * what every member must hold. */
#include "vh.h"
#include "ggggc/gc.h"

#ifdef __cplusplus
extern "C" {
#endif
size_t vh_poolBytes = GGGGC_POOL_BYTES;
#ifdef __cplusplus
}
#endif
#define POOLCAP ((GGGGC_POOL_BYTES - offsetof(struct GGGGC_Pool, start)) / sizeof(ggc_size_t))

typedef struct { char c[3]; } Tri;
typedef struct { long l[3]; } Big3;
typedef struct { size_t l[17]; } Big17;
typedef struct { int i[5]; } Odd;
/* every type starts with its identity, and can be looked at like this */
GGC_TYPE(Leaf)
    GGC_MDATA(size_t, id);
GGC_END_TYPE(Leaf, GGC_NO_PTRS)
GGC_DA_TYPE(Tri)
GGC_DA_TYPE(Big3)
GGC_DA_TYPE(Odd)

static vh_rng R;
#define NLOOK 512
static size_t look[NLOOK];              /* values that look like addresses */
static void bits(void *to, size_t n, uint64_t s, int k)
{
    unsigned char *b = (unsigned char *) to; size_t i;
    uint64_t h = vh_hash(vh_hash(s, (uint64_t) k), 99);
    if (n % sizeof(size_t) == 0 && (h & 3)) {
        for (i = 0; i < n / sizeof(size_t); i++) { size_t v = look[(h + i * 7) % NLOOK]; memcpy(b + i * sizeof(size_t), &v, sizeof(size_t)); }
        return;
    }
    for (i = 0; i < n; i++) { h = vh_hash(h, i); b[i] = (unsigned char) (h >> 11); }
    /* no signalling NaNs, which copying may change on some machines */
    if (n == 4 || n == 8) b[n - 1] &= 0x3F;
}
static int same(const void *v, size_t n, uint64_t s, int k)
{
    unsigned char w[256];
    bits(w, n, s, k);
    return memcmp(v, w, n) == 0;
}
#include "typed_types.h"

#define NOBJ 600
static struct { int live, type; size_t id; size_t tgt[64]; } M[NOBJ];   /* model: slot -> object; tgt: slot + 1, or 0 */
static size_t nObj, nextId;
static LeafArray all;
static long collections, verified, typesSeen[NT];

static void checkOne(size_t i, const char *when)
{
    Leaf o = GGC_RAP(all, i), x; const struct TInfo *t = &tinfo[M[i].type]; int k, r;
    if (!o) vh_viol("lost", "%s: object %lu of type %s is gone", when, (unsigned long) M[i].id, t->name);
    if (!vh_inPool(o)) vh_viol("lost", "%s: reference to object %lu of type %s is no object", when, (unsigned long) M[i].id, t->name);
    if ((r = t->chkd(o, M[i].id))) vh_viol("data", "%s: data member %d of object %lu of type %s changed", when, r - 1, (unsigned long) M[i].id, t->name);
    for (k = 0; k < t->np; k++) {
        x = t->getp(o, k);
        if (!M[i].tgt[k]) { if (x) vh_viol("pointer", "%s: pointer member %d of type %s not null", when, k, t->name); continue; }
        if (x != GGC_RAP(all, M[i].tgt[k] - 1)) vh_viol("pointer", "%s: pointer member %d (word %lu) of type %s does not designate its object", when, k, (unsigned long) t->off[k], t->name);
    }
    if (o->header.descriptor__ptr->size < t->words) vh_viol("descriptor", "type %s has a descriptor for %lu words", t->name, (unsigned long) o->header.descriptor__ptr->size);
    verified++; typesSeen[M[i].type]++;
}
/* in such a chain, only one member leads to the next object */
static void chains(void)
{
    Leaf head = NULL, cur = NULL, n = NULL; size_t t, i; int k, len, j, c; size_t ids[70];
    GGC_PUSH_3(head, cur, n);
    for (t = 0; t < NT; t++) {
        if (tinfo[t].np == 0 || !vh_pct(&R, 30)) continue;
        /* through every pointer of this type in turn */
        len = tinfo[t].np;
        head = cur = NULL;
        for (k = 0; k < len; k++) {
            size_t id = ++nextId;
            n = (Leaf) tinfo[t].mk();
            if (tinfo[t].zero(n)) vh_viol("not-zero", "new object of type %s", tinfo[t].name);
            tinfo[t].setd(n, id); ids[k] = id;
            if (cur) tinfo[t].setp(cur, k - 1, n); else head = n;
            cur = n;
            if (vh_pct(&R, 5)) { GGC_COLLECT(); collections++; }
            GGC_YIELD();
        }
        n = cur = NULL;
        c = 1 + (int) vh_below(&R, 3);
        for (j = 0; j < c; j++) { for (i = 0; i < 50; i++) { n = GGC_NEW(Leaf); GGC_YIELD(); } n = NULL; GGC_COLLECT(); collections++; }
        cur = head;
        for (k = 0; k < len; k++) {
            int r;
            if (!cur || !vh_inPool(cur)) vh_viol("pointer", "pointer member %d (word %lu) of type %s was not followed", k - 1, (unsigned long) (k ? tinfo[t].off[k - 1] : 0), tinfo[t].name);
            if ((r = tinfo[t].chkd(cur, ids[k]))) vh_viol("data", "chain: data member %d of type %s changed", r - 1, tinfo[t].name);
            cur = tinfo[t].getp(cur, k);
            verified++;
        }
        vh_stat("chains", 1); vh_stat("types", 1);
        vh_distinct("type", vh_hash(t, 5));
    }
    GGC_POP();
}

#define ARR(T, N) do { \
    GGC_ ## T ## _Array a = NULL; Leaf l = NULL; size_t i, n = vh_below(&R, (N)); uint64_t s = vh_next(&R); \
    GGC_PUSH_2(a, l); \
    a = GGC_NEW_DA(T, n); \
    if (GGC_LENGTH(a) != n) vh_viol("length", #T " array of %lu has length %lu", (unsigned long) n, (unsigned long) GGC_LENGTH(a)); \
    for (i = 0; i < n; i++) { T v; bits(&v, sizeof(v), s, (int) i); GGC_WAD(a, i, v); } \
    for (i = 0; i < 40; i++) { l = GGC_NEW(Leaf); GGC_YIELD(); } \
    if (vh_pct(&R, 50)) { GGC_COLLECT(); collections++; } \
    if (GGC_LENGTH(a) != n) vh_viol("length", #T " array's length changed from %lu to %lu", (unsigned long) n, (unsigned long) GGC_LENGTH(a)); \
    for (i = 0; i < n; i++) { T v = GGC_RAD(a, i); if (!same(&v, sizeof(v), s, (int) i)) vh_viol("data", "element %lu of a " #T " array of %lu changed", (unsigned long) i, (unsigned long) n); } \
    vh_stat("arrays", 1); \
    GGC_POP(); \
} while (0)
static void a0(size_t c) { ARR(char, c * 8); }
static void a1(size_t c) { ARR(short, c * 4); }
static void a2(size_t c) { ARR(int, c * 2); }
static void a3(size_t c) { ARR(unsigned, c * 2); }
static void a4(size_t c) { ARR(long, c); }
static void a5(size_t c) { ARR(float, c * 2); }
static void a6(size_t c) { ARR(double, c); }
static void a7(size_t c) { ARR(size_t, c); }
static void a8(size_t c) { ARR(Tri, c * 2); }
static void a9(size_t c) { ARR(Big3, c / 3); }
static void a10(size_t c) { ARR(Odd, c / 3); }
static void (*const arrs[])(size_t) = { a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10 };

int main(int argc, char **argv)
{
    long ops, op; size_t i, k; Leaf o = NULL, n = NULL;
    vh_init(argc, argv);
    R.s = (uint64_t) vh_arg("seed", 1) * 6007 + 11;
    ops = vh_arg("ops", 3000);
    GGC_PUSH_3(all, o, n);
    nObj = NOBJ; { size_t cap = POOLCAP - 8; if (nObj > cap) nObj = cap; }
    all = GGC_NEW_PA(Leaf, nObj);
    for (i = 0; i < NLOOK; i++) {
        /* addresses of live objects, dead ones, and into them; tagged forms as well */
        o = GGC_NEW(Leaf);
        look[i] = (size_t) (void *) o;
        switch (i % 5) { case 1: look[i] += vh_below(&R, GGGGC_POOL_BYTES / 2) & ~(size_t) 7; break; case 2: look[i] |= 1 + vh_below(&R, 7); break; case 3: look[i] = (size_t) (void *) all + 8 * vh_below(&R, 100); break; default: break; }
    }
    o = NULL;
    for (op = 0; op < ops; op++) {
        i = vh_below(&R, nObj);
        switch (vh_below(&R, 12)) {
            case 0: case 1: case 2: {       /* new object in this slot; whoever referred to the old one keeps it alive, so unlink first */
                size_t j; int t = (int) vh_below(&R, NT), kk;
                if (M[i].live) {
                    for (j = 0; j < nObj; j++) if (M[j].live) for (kk = 0; kk < tinfo[M[j].type].np; kk++) if (M[j].tgt[kk] == i + 1) {
                        o = GGC_RAP(all, j); n = NULL; tinfo[M[j].type].setp(o, kk, n); M[j].tgt[kk] = 0;
                    }
                }
                n = (Leaf) tinfo[t].mk();
                if (tinfo[t].zero(n)) vh_viol("not-zero", "new object of type %s", tinfo[t].name);
                M[i].live = 1; M[i].type = t; M[i].id = ++nextId; memset(M[i].tgt, 0, sizeof(M[i].tgt));
                tinfo[t].setd(n, M[i].id);
                GGC_WAP(all, i, n);
                n = o = NULL;
                break;
            }
            case 3: case 4: case 5: case 6: { /* link */
                size_t j = vh_below(&R, nObj);
                if (!M[i].live || !tinfo[M[i].type].np || !M[j].live) break;
                k = vh_below(&R, (uint64_t) tinfo[M[i].type].np);
                o = GGC_RAP(all, i); n = GGC_RAP(all, j);
                tinfo[M[i].type].setp(o, (int) k, n); M[i].tgt[k] = j + 1;
                n = o = NULL;
                break;
            }
            case 7:                         /* rewrite data */
                if (!M[i].live) break;
                M[i].id = ++nextId; o = GGC_RAP(all, i); tinfo[M[i].type].setd(o, M[i].id); o = NULL;
                break;
            case 8: if (vh_pct(&R, 10)) { GGC_COLLECT(); collections++; for (k = 0; k < nObj; k++) if (M[k].live) checkOne(k, "after a collection"); } break;
            case 9: if (vh_pct(&R, 8)) arrs[vh_below(&R, sizeof(arrs) / sizeof(arrs[0]))](POOLCAP / 2 < 1500 ? POOLCAP / 2 : 1500); break;
            case 10: if (vh_pct(&R, 2)) chains(); break;
            default: if (M[i].live) checkOne(i, "at random"); for (k = 0; k < 20; k++) { n = GGC_NEW(Leaf); GGC_YIELD(); } n = NULL; break;
        }
        GGC_YIELD();
    }
    chains();
    GGC_COLLECT(); collections++;
    for (i = 0; i < nObj; i++) if (M[i].live) checkOne(i, "in the end");
    { long ts = 0; for (i = 0; i < NT; i++) if (typesSeen[i]) ts++; vh_stat("types_compared", ts); }
    vh_stat("collections", collections); vh_stat("objects_verified", verified);
    vh_distinct("heap", vh_hash(vh_hash(1, (uint64_t) verified), nextId));
    vh_sample("%lu objects of macro-declared types made, %ld comparisons, %ld collections", (unsigned long) nextId, verified, collections);
    vh_done();
    return 0;
}
