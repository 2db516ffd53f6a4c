/* Reference-model monitor for the collections: lists against sequences, maps
 * against dictionaries, with collections at every chance (another thread may
 * ask for them inside every operation). profile=list|map|both, bg=1: a second
 * thread that allocates and collects. */
#include "vh.h"
#include "ggggc/gc.h"
#include "ggggc/collections/list.h"
#include "ggggc/collections/map.h"
#include "ggggc/collections/unit.h"

#ifdef __cplusplus
extern "C" {
#endif
size_t vh_poolBytes = GGGGC_POOL_BYTES;
#ifdef __cplusplus
}
#endif

#define POOLCAP ((GGGGC_POOL_BYTES - offsetof(struct GGGGC_Pool, start)) / sizeof(ggc_size_t))

GGC_TYPE(Item)
    GGC_MDATA(ggc_size_t, id);
    GGC_MPTR(Item, twin);
    GGC_MDATA(ggc_size_t, check);
GGC_END_TYPE(Item,
    GGC_PTR(Item, twin)
    )
GGC_TYPE(Key)
    GGC_MDATA(ggc_size_t, val);
    GGC_MPTR(Item, junk);
    GGC_MDATA(ggc_size_t, check);
GGC_END_TYPE(Key,
    GGC_PTR(Key, junk)
    )
GGC_LIST(Item)

static vh_rng R;
static int hashMode, allocHash;
static long hashCalls, cmpCalls;
static size_t keyHash(Key k)
{
    hashCalls++;
    if (!k) vh_viol("bad-key", "hash function called with null");
    if (GGC_RD(k, check) != GGC_RD(k, val) * 31 + 7) vh_viol("bad-key", "hash function called with something that is not a key");
    if (allocHash && hashCalls % 5 == 0) {
        /* a hash function may itself use the heap */
        Item i = NULL;
        GGC_PUSH_2(k, i);
        i = GGC_NEW(Item);
        GGC_WP(i, twin, i);
        GGC_POP();
    }
    switch (hashMode) {
        case 0: return 0;                                   /* everything collides */
        case 1: return GGC_RD(k, val) & 3;
        case 2: return GGC_RD(k, val);
        case 3: return GGC_RD(k, val) * 64;                 /* collides modulo powers of two */
        case 4: return (size_t) -1 - (GGC_RD(k, val) & 15); /* huge */
        default: return (size_t) ((GGC_RD(k, val) * 0x9E3779B97F4A7C15ULL) >> 7);
    }
}
static int keyCmp(Key a, Key b)
{
    cmpCalls++;
    if (!a || !b) vh_viol("bad-key", "comparison function called with null");
    if (GGC_RD(a, check) != GGC_RD(a, val) * 31 + 7 || GGC_RD(b, check) != GGC_RD(b, val) * 31 + 7)
        vh_viol("bad-key", "comparison function called with something that is not a key");
    if (allocHash && cmpCalls % 7 == 0) {
        Item i = NULL;
        GGC_PUSH_3(a, b, i);
        i = GGC_NEW(Item);
        GGC_POP();
    }
    if (GGC_RD(a, val) < GGC_RD(b, val)) return -1;
    return GGC_RD(a, val) > GGC_RD(b, val);
}
GGC_MAP(IMap, Key, Item, keyHash, keyCmp)
GGC_UNIT(int)
GGC_LIST(GGC_int_Unit)
/* a map to boxed integers */
GGC_MAP(USet, Key, GGC_int_Unit, keyHash, keyCmp)

/* ---- items ---- */
#define NI 64                     /* items that are also reachable from outside */
static ItemArray items;           /* global root */
static ggc_size_t nextId = NI;
#define NOITEM 0xFFFFFFFFUL

static Item newItem(ggc_size_t id)
{
    Item i = NULL, t = NULL; ggc_size_t c;
    GGC_PUSH_2(i, t);
    i = GGC_NEW(Item);
    c = id * 77 + 5;
    GGC_WD(i, id, id); GGC_WD(i, check, c);
    if (vh_pct(&R, 30)) { t = GGC_NEW(Item); c = id + 1000000; GGC_WD(t, id, c); c = c * 77 + 5; GGC_WD(t, check, c); GGC_WP(i, twin, t); }
    return i;
}
static void checkItem(Item i, ggc_size_t id, const char *where)
{
    if (id == NOITEM) { if (i) vh_viol("wrong-element", "%s: not null where a null was put", where); return; }
    if (!i) vh_viol("wrong-element", "%s: null instead of element %lu", where, (unsigned long) id);
    if (id < NI && GGC_RAP(items, id) != i) vh_viol("identity", "%s: element %lu is another object", where, (unsigned long) id);
    if (GGC_RD(i, id) != id || GGC_RD(i, check) != id * 77 + 5)
        vh_viol("wrong-element", "%s: element %lu instead of %lu", where, (unsigned long) GGC_RD(i, id), (unsigned long) id);
    { Item t = GGC_RP(i, twin);
      if (t && (GGC_RD(t, id) != id + 1000000 || GGC_RD(t, check) != (id + 1000000) * 77 + 5)) vh_viol("wrong-element", "%s: what element %lu refers to is damaged", where, (unsigned long) id); }
}
static Item pick(ggc_size_t *id)
{
    Item i;
    switch (vh_below(&R, 8)) {
        case 0: *id = NOITEM; return NULL;
        case 1: case 2: case 3: *id = vh_below(&R, NI); return GGC_RAP(items, *id);
        default: *id = nextId++; i = newItem(*id); return i;
    }
}
static void garbage(void)
{
    long n = (long) vh_below(&R, 300); GGC_voidpArray a = NULL;
    GGC_PUSH_1(a);
    while (n--) a = GGC_NEW_PA(GGC_voidp, vh_below(&R, 20));
    vh_stat("op_garbage", 1);
    GGC_POP();
}

/* ---- lists ---- */
#define NL 6
#define NH 4
#define NA 3
typedef struct { ggc_size_t el; long uid; } MNode;
static struct { MNode *n; long len, cap; } ml[NL];
static ItemList lists[NL];
static ItemListNode held[NH]; static long heldUid[NH];
static GGC_voidpArray arrs[NA]; static struct { ggc_size_t *e; long len; } ma[NA];
static long nextUid = 1;
static long maxLen;

static void mIns(int l, long at, ggc_size_t el)
{
    if (ml[l].len == ml[l].cap) { ml[l].cap = ml[l].cap * 2 + 16; ml[l].n = (MNode *) vh_realloc(ml[l].n, ml[l].cap * sizeof(MNode)); }
    memmove(ml[l].n + at + 1, ml[l].n + at, (ml[l].len - at) * sizeof(MNode));
    ml[l].n[at].el = el; ml[l].n[at].uid = nextUid++; ml[l].len++;
}
static void mMove(int to, long at, int from)
{
    long k = ml[from].len;
    while (ml[to].len + k > ml[to].cap) { ml[to].cap = ml[to].cap * 2 + 16; ml[to].n = (MNode *) vh_realloc(ml[to].n, ml[to].cap * sizeof(MNode)); }
    if (!k) return;
    memmove(ml[to].n + at + k, ml[to].n + at, (ml[to].len - at) * sizeof(MNode));
    memcpy(ml[to].n + at, ml[from].n, k * sizeof(MNode));
    ml[to].len += k; ml[from].len = 0;
}
static void checkList(int l)
{
    ItemListNode n; long i;
    if ((long) GGC_RD(lists[l], length) != ml[l].len) vh_viol("list-length", "list %d: length %lu, expected %ld", l, (unsigned long) GGC_RD(lists[l], length), ml[l].len);
    n = GGC_RP(lists[l], head);
    for (i = 0; i < ml[l].len; i++) {
        int h;
        if (!n) vh_viol("list-short", "list %d ends after %ld of %ld elements", l, i, ml[l].len);
        checkItem(GGC_RP(n, el), ml[l].n[i].el, "list");
        for (h = 0; h < NH; h++) if (held[h] && heldUid[h] == ml[l].n[i].uid && held[h] != n) vh_viol("identity", "list %d: node %ld is another object", l, i);
        n = GGC_RP(n, next);
    }
    if (n) vh_viol("list-long", "list %d goes on after its %ld elements", l, ml[l].len);
    vh_stat("lists_compared", 1); vh_stat("elements_compared", ml[l].len);
    { uint64_t h = 7; for (i = 0; i < ml[l].len; i++) h = vh_hash(h, ml[l].n[i].el < NI ? ml[l].n[i].el : NI + (ml[l].n[i].el == NOITEM)); if (ml[l].len > 1) vh_distinct("sequences", h); }
}
static void checkArr(int a)
{
    long i;
    if (!arrs[a]) return;
    if ((long) GGC_LENGTH(arrs[a]) != ma[a].len) vh_viol("array-length", "array from a list: length %lu, expected %ld", (unsigned long) GGC_LENGTH(arrs[a]), ma[a].len);
    for (i = 0; i < ma[a].len; i++) checkItem((Item) GGC_RAP(arrs[a], i), ma[a].e[i], "array from a list");
}
/* the i-th node, not across a yield */
static ItemListNode nodeAt(int l, long i)
{
    ItemListNode n = GGC_RP(lists[l], head);
    while (i--) n = GGC_RP(n, next);
    return n;
}
static void deunit(void);
static void listOp(void)
{
    int l = (int) vh_below(&R, NL), m = (int) vh_below(&R, NL), h; ggc_size_t id; Item it = NULL; long i;
    ItemListNode n = NULL;
    GGC_PUSH_2(it, n);
    switch (vh_below(&R, 12)) {
        case 0: case 1: case 2:
            if (ml[l].len >= maxLen) goto shift;
            it = pick(&id); ItemListPush(lists[l], it); mIns(l, ml[l].len, id); vh_stat("op_push", 1); break;
        case 3: case 4:
            if (ml[l].len >= maxLen) goto shift;
            it = pick(&id); ItemListUnshift(lists[l], it); mIns(l, 0, id); vh_stat("op_unshift", 1); break;
        case 5: case 6:
        shift: {
            long k = vh_pct(&R, 5) ? ml[l].len + 1 : 1;
            while (k--) {
                Item s = ItemListShift(lists[l]);
                it = s;
                if (!ml[l].len) { if (s) vh_viol("wrong-element", "shift of an empty list gave an element"); vh_stat("op_shift_empty", 1); break; }
                checkItem(it, ml[l].n[0].el, "shift");
                memmove(ml[l].n, ml[l].n + 1, --ml[l].len * sizeof(MNode));
                vh_stat("op_shift", 1);
            }
            break;
        }
        case 7:
            if (l == m || ml[l].len + ml[m].len > maxLen * 2) break;
            if (!ml[l].len || !ml[m].len) vh_stat("op_whole_empty", 1);
            if (vh_pct(&R, 50)) { ItemListPushList(lists[l], lists[m]); mMove(l, ml[l].len, m); }
            else { ItemListUnshiftList(lists[l], lists[m]); mMove(l, 0, m); }
            vh_stat("op_whole", 1);
            if (vh_pct(&R, 30)) checkList(m);
            break;
        case 8: case 9:
            if (!ml[l].len || ml[l].len >= maxLen * 2) break;
            i = vh_pct(&R, 30) ? ml[l].len - 1 : vh_pct(&R, 20) ? 0 : (long) vh_below(&R, ml[l].len);
            it = pick(&id); n = nodeAt(l, i);
            ItemListInsertAfter(lists[l], n, it); mIns(l, i + 1, id); vh_stat("op_insert", 1);
            break;
        case 10: {
            long at = -1;
            if (l == m || ml[l].len + ml[m].len > maxLen * 2) break;
            /* after a node that was held for long, wherever it is now */
            h = (int) vh_below(&R, NH);
            if (held[h] && vh_pct(&R, 60)) {
                int k;
                for (k = 0; k < NL && at < 0; k++)
                    for (i = 0; i < ml[k].len; i++) if (ml[k].n[i].uid == heldUid[h]) { l = k; at = i; break; }
                if (at >= 0) n = held[h];
            }
            if (l == m || ml[l].len + ml[m].len > maxLen * 2) break;
            if (at < 0) { if (!ml[l].len) break; at = vh_pct(&R, 30) ? ml[l].len - 1 : (long) vh_below(&R, ml[l].len); n = nodeAt(l, at); }
            ItemListInsertAfterList(lists[l], n, lists[m]); mMove(l, at + 1, m);
            vh_stat("op_insert_list", 1);
            break;
        }
        default:
            if (vh_pct(&R, 20)) deunit();
            if (vh_pct(&R, 50)) {
                int a = (int) vh_below(&R, NA);
                arrs[a] = GGC_ListToArray((GGC_List) lists[l]);
                ma[a].e = (ggc_size_t *) vh_realloc(ma[a].e, (ml[l].len + 1) * sizeof(ggc_size_t)); ma[a].len = ml[l].len;
                for (i = 0; i < ml[l].len; i++) ma[a].e[i] = ml[l].n[i].el;
                checkArr(a);
                vh_stat("op_to_array", 1);
            } else if (ml[l].len) {
                h = (int) vh_below(&R, NH); i = (long) vh_below(&R, ml[l].len);
                held[h] = nodeAt(l, i); heldUid[h] = ml[l].n[i].uid;
            }
            if (vh_pct(&R, 10)) { lists[m] = GGC_NEW(ItemList); ml[m].len = 0; }
            break;
    }
    GGC_POP();
}

/* ---- maps ---- */
#define NM 5
#define MAXK 4096
static IMap maps[NM]; static ggc_size_t *mv[NM]; /* key -> value id + 1, 0 missing */
static USet sets[2]; static int *sv[2];
static long keySpace;

static Key newKey(ggc_size_t v)
{
    Key k = NULL; Item j = NULL; ggc_size_t c = v * 31 + 7;
    GGC_PUSH_2(k, j);
    if (vh_pct(&R, 10)) j = GGC_NEW(Item);
    k = GGC_NEW(Key);
    GGC_WD(k, val, v); GGC_WD(k, check, c); GGC_WP(k, junk, j);
    return k;
}
static void lookup(int m, ggc_size_t v)
{
    Key k = NULL; Item it = NULL; int r;
    GGC_PUSH_2(k, it);
    k = newKey(v);
    r = IMapGet(maps[m], k, &it);
    if (!!r != !!mv[m][v]) vh_viol(r ? "map-extra" : "map-missing", "map %d, key %lu: %s", m, (unsigned long) v, r ? "found, but was never put" : "not found");
    if (r) { checkItem(it, mv[m][v] - 1, "map value"); vh_stat("hits", 1); } else vh_stat("misses", 1);
    GGC_POP();
}
static void setLookup(int s, ggc_size_t v)
{
    Key k = NULL; GGC_int_Unit u = NULL; int r;
    GGC_PUSH_2(k, u);
    k = newKey(v);
    r = USetGet(sets[s], k, &u);
    if (!!r != !!sv[s][v]) vh_viol(r ? "map-extra" : "map-missing", "map of integers %d, key %lu", s, (unsigned long) v);
    if (r && (!u || GGC_RD(u, v) != sv[s][v])) vh_viol("wrong-element", "map of integers, key %lu: wrong value", (unsigned long) v);
    GGC_POP();
}
/* boxed integers through list, array and back */
static void deunit(void)
{
    GGC_int_UnitList l = NULL; GGC_int_Unit u = NULL; GGC_int_UnitArray ua = NULL; GGC_int_Array ia = NULL; int i, n = (int) vh_below(&R, 40), b = (int) vh_next(&R);
    GGC_PUSH_4(l, u, ua, ia);
    l = GGC_NEW(GGC_int_UnitList);
    for (i = 0; i < n; i++) { int x = b ^ (i * 77); u = GGC_NEW(GGC_int_Unit); GGC_WD(u, v, x); GGC_int_UnitListPush(l, u); }
    ua = GGC_int_UnitListToArray(l);
    ia = GGC_int_UnitArrayDeunit(ua);
    if ((int) GGC_LENGTH(ia) != n) vh_viol("array-length", "array of unboxed integers: length %lu, expected %d", (unsigned long) GGC_LENGTH(ia), n);
    for (i = 0; i < n; i++) if (GGC_RAD(ia, i) != (b ^ (i * 77))) vh_viol("wrong-element", "unboxed integer %d of %d", i, n);
    vh_stat("op_unbox", 1);
    GGC_POP();
}
static void checkMap(int m)
{
    long v; uint64_t h = 3; long n = 0;
    for (v = 0; v < keySpace; v++) { lookup(m, (ggc_size_t) v); if (mv[m][v]) { n++; h = vh_hash(h, (uint64_t) v); } }
    vh_stat("maps_compared", 1); vh_stat_max("max_map", n);
    if (n > 1) vh_distinct("keysets", h);
}
static void putInt(int s, ggc_size_t v, int x)
{
    Key k = NULL; GGC_int_Unit u = NULL;
    GGC_PUSH_2(k, u);
    k = newKey(v); u = GGC_NEW(GGC_int_Unit); GGC_WD(u, v, x);
    USetPut(sets[s], k, u); sv[s][v] = x;
    GGC_POP();
}
static void mapOp(void)
{
    int m = (int) vh_below(&R, NM), o = (int) vh_below(&R, NM); ggc_size_t id, v = vh_below(&R, keySpace); Key k = NULL; Item it = NULL;
    GGC_PUSH_2(k, it);
    switch (vh_below(&R, 16)) {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6:
            it = pick(&id); k = newKey(v);
            IMapPut(maps[m], k, it);
            if (mv[m][v]) vh_stat("op_replace", 1); else vh_stat("op_put", 1);
            mv[m][v] = id + 1;
            if (vh_pct(&R, 30)) lookup(m, v);
            break;
        case 7: case 8: case 9: case 10: lookup(m, v); break;
        case 11: if (vh_pct(&R, 10)) { maps[m] = GGC_NEW(IMap); memset(mv[m], 0, keySpace * sizeof(ggc_size_t)); vh_stat("op_new_map", 1); } break;
        case 12:
            if (!vh_pct(&R, 25)) break;
            maps[o] = IMapClone(maps[m]);
            if (o != m) memcpy(mv[o], mv[m], keySpace * sizeof(ggc_size_t));
            vh_stat("op_clone", 1);
            break;
        case 13: { int s = (int) vh_below(&R, 2); int x = (int) (vh_next(&R) | 1); putInt(s, v, x); break; }
        case 14: setLookup((int) vh_below(&R, 2), v); break;
        default: {
            /* many keys at once, in order */
            long n = (long) vh_below(&R, keySpace < 40 ? keySpace : 40);
            while (n--) { v = (v + 1) % keySpace; it = pick(&id); k = newKey(v); IMapPut(maps[m], k, it); mv[m][v] = id + 1; }
            vh_stat("op_fill", 1);
            break;
        }
    }
    GGC_POP();
}

/* ---- another thread that makes collections happen ---- */
static volatile int bgStop;
static volatile long progress;
static void bgMain(GGC_ThreadArg arg)
{
    ItemArray a = NULL; Item i = NULL; long n = 0;
    GGC_PUSH_3(arg, a, i);
    a = GGC_NEW_PA(Item, 50);
    while (!bgStop) {
        i = GGC_NEW(Item);
        GGC_WAP(a, n % 50, i);
        if (++n % 40 == 0) GGC_COLLECT();
        GGC_YIELD();
    }
    return;
}

static void startBg(ggc_thread_t *th)
{
    GGC_ThreadArg ta = NULL;
    GGC_PUSH_1(ta);
    ta = GGC_NEW(GGC_ThreadArg);
    if (ggc_thread_create(th, bgMain, ta)) vh_bug("cannot create a thread");
    return;
}
static void run2(long ops, int doList, int doMap, int bg)
{
    long i, k; ggc_thread_t th;
    GGC_PUSH_5(maps[0], maps[1], maps[2], maps[3], maps[4]);
    for (i = 0; i < NL; i++) lists[i] = GGC_NEW(ItemList);
    for (i = 0; i < NM; i++) { maps[i] = GGC_NEW(IMap); mv[i] = (ggc_size_t *) vh_calloc(keySpace, sizeof(ggc_size_t)); }
    for (i = 0; i < 2; i++) { sets[i] = GGC_NEW(USet); sv[i] = (int *) vh_calloc(keySpace, sizeof(int)); }
    items = GGC_NEW_PA(Item, NI);
    for (i = 0; i < NI; i++) { Item it = newItem((ggc_size_t) i); GGC_WAP(items, i, it); }
    if (bg) {
        startBg(&th);
    }
    for (i = 0; i < ops; i++) {
        long b0 = vh_barriers;
        progress++;
        if (doList && (!doMap || vh_pct(&R, 50))) listOp(); else mapOp();
        if (vh_pct(&R, 4)) garbage();
        if (vh_pct(&R, 1)) { GGC_COLLECT(); vh_stat("op_collect", 1); }
        if (vh_barriers != b0) vh_stat("ops_with_collection", 1);
        if (doList && i % 16 == 0) { checkList((int) vh_below(&R, NL)); checkArr((int) vh_below(&R, NA)); }
        if (doMap && i % 400 == 0) checkMap((int) vh_below(&R, NM));
    }
    for (k = 0; k < 3; k++) {
        if (doList) { for (i = 0; i < NL; i++) checkList((int) i); for (i = 0; i < NA; i++) checkArr((int) i); }
        if (doMap) { for (i = 0; i < NM; i++) checkMap((int) i); for (i = 0; i < keySpace; i++) { setLookup(0, i); setLookup(1, i); } }
        GGC_COLLECT();
    }
    bgStop = 1;
    if (bg) ggc_thread_join(th);
    return;
}
static void run(long ops, int doList, int doMap, int bg)
{
    GGC_PUSH_16(lists[0], lists[1], lists[2], lists[3], lists[4], lists[5], held[0], held[1], held[2], held[3], arrs[0], arrs[1], arrs[2], items, sets[0], sets[1]);
    run2(ops, doList, doMap, bg);
    return;
}


int main(int argc, char **argv)
{
    const char *prof; long ops;
    vh_init(argc, argv);
    R.s = (uint64_t) vh_arg("seed", 1) * 7368787;
    prof = vh_sarg("profile", "both");
    ops = vh_arg("ops", 4000);
    maxLen = vh_arg("maxlen", 60);
    hashMode = (int) vh_arg("hash", (long) vh_below(&R, 6));
    keySpace = vh_arg("keys", hashMode < 2 ? 60 : vh_pct(&R, 50) ? 300 : 1500);
    if (keySpace > (long) (POOLCAP - 8) / 4) keySpace = (long) (POOLCAP - 8) / 4;
    if (maxLen > (long) (POOLCAP - 100) / 2) maxLen = (long) (POOLCAP - 100) / 2;
    allocHash = (int) vh_arg("allochash", vh_pct(&R, 40));
    vh_watchStart(&progress, vh_arg("wd", 25), NULL);
    run(ops, strcmp(prof, "map") != 0, strcmp(prof, "list") != 0, (int) vh_arg("bg", 0));
    vh_watchStop();
    vh_stat("ops", ops);
    vh_sample("profile %s, hash mode %d, %ld keys, %ld operations, %ld hash calls", prof, hashMode, keySpace, ops, hashCalls);
    vh_done();
    return 0;
}
