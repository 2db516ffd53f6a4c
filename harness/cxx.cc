/* The C++ wrappers against a model: wrappers of all kinds in random nestings of
 * frames (blocks, parameters by value and by reference, returns, members of
 * structures, arrays of wrappers, exceptions), with stores through proxies,
 * wrappers and the C macros, and collections in between. */
#include "vh.h"
#include "ggggc/gc.h"
#include <vector>
#include <stdexcept>

extern "C" { size_t vh_poolBytes = GGGGC_POOL_BYTES; }

GGC_TYPE(Node)
    GGC_MDATA(long, id);
    GGC_MPTR(Node, next);
    GGC_MPTR(Node, other);
    GGC_MPTR(NodeArray, arr);
    GGC_MPTR(GGC_long_Array, nums);
    GGC_MDATA(double, d);
    GGC_MDATA(short, s);
    GGC_MDATA(long, chk);
GGC_END_TYPE(Node,
    GGC_PTR(Node, next)
    GGC_PTR(Node, other)
    GGC_PTR(Node, arr)
    GGC_PTR(Node, nums)
    )

typedef GGC<Node> W;
typedef GGCPA<Node, NodeArray> PA;
typedef GGCDA<long, GGC_long_Array> DA;

static vh_rng R;
static long collections, verified, frames, returns, throws_, stores;
#define ALEN 12

/* ---- model: object 0 is null. Arrays are part of the node that owns them ---- */
struct MNode { int next, other; bool arr, nums; int a[ALEN]; long n[ALEN]; double d; short s; };
static std::vector<MNode> M(1);
struct MRef { int id; };

static double dOf(long v) { return (double) v * 0.5 + 3; }

/* ---- slots: the wrappers in scope ---- */
struct Slot { W *w; int id; };
static std::vector<Slot *> scope;
/* registers a wrapper with the model for as long as both live */
struct Reg {
    Slot s;
    Reg(W &w, int id) { s.w = &w; s.id = id; scope.push_back(&s); }
    ~Reg() { if (scope.back() != &s) vh_bug("scopes"); scope.pop_back(); }
};
static Slot &any() { return *scope[vh_below(&R, scope.size())]; }
/* the wrappers of this frame and its callers, rather the newest */
static Slot &some()
{
    size_t n = scope.size(), k = n < 6 ? n : 6;
    return vh_pct(&R, 60) ? *scope[n - 1 - vh_below(&R, k)] : any();
}

static void checkNode(Node n, int id, const char *where)
{
    if (!id) { if (n) vh_viol("not-null", "%s: not null", where); return; }
    if (!n) vh_viol("lost", "%s: null instead of object %d", where, id);
    if (!vh_inPool(n)) vh_viol("lost", "%s: what should be object %d is no object", where, id);
    if (GGC_RD(n, id) != id || GGC_RD(n, chk) != id * 7919L + 13) vh_viol("wrong-object", "%s: object %ld instead of %d", where, (long) GGC_RD(n, id), id);
    if (GGC_RD(n, d) != M[id].d || GGC_RD(n, s) != M[id].s) vh_viol("data", "%s: data of object %d changed", where, id);
    verified++;
}
static void checkDeep(W w, int id, const char *where)   /* by value: a copy is a root too */
{
    int i, depth = 0;
    while (id && depth++ < 30) {
        checkNode(w.get(), id, where);
        const MNode &m = M[id];
        /* proxies and macros have to agree with the model */
        { Node x = w->other; Node y; { Node n = w.get(); y = GGC_RP(n, other); }
          if (x != y) vh_viol("proxy", "%s: proxy and macro read different values", where);
          checkNode(x, m.other, where); }
        { long l = w->id; short s = w->s; double d = w->d; if (l != id || s != m.s || d != m.d) vh_viol("proxy", "%s: data proxies of object %d", where, id); }
        { NodeArray a = w->arr;
          if (!m.arr) { if (a) vh_viol("not-null", "%s: pointer array of object %d", where, id); }
          else {
              PA pa(a);
              if (!a || GGC_LENGTH(a) != ALEN) vh_viol("lost", "%s: pointer array of object %d", where, id);
              for (i = 0; i < ALEN; i++) { checkNode(pa[i], m.a[i], where); if (pa.get(i) != pa[i]) vh_viol("proxy", "get and [] differ"); }
          } }
        { GGC_long_Array a = w->nums;
          if (!m.nums) { if (a) vh_viol("not-null", "%s: data array of object %d", where, id); }
          else {
              DA da(a);
              if (!a || GGC_LENGTH(a) != ALEN) vh_viol("lost", "%s: data array of object %d", where, id);
              for (i = 0; i < ALEN; i++) if (da[i] != m.n[i] || da.get(i) != m.n[i]) vh_viol("data", "%s: element %d of object %d's data array", where, i, id);
          } }
        { Node n = w->next; w = n; }
        id = m.next;
    }
    if (!id && depth < 30 && w.get()) vh_viol("not-null", "%s: chain goes on", where);
}
static void collect()
{
    GGC_COLLECT(); collections++;
    for (size_t i = 0; i < scope.size(); i++) checkNode(scope[i]->w->get(), scope[i]->id, "after a collection");
}
static void junk(int n) { for (int i = 0; i < n; i++) { W w((Node) GGC_NEW(Node)); w->d = 9.5; GGC_YIELD(); } }

static int newModel()
{
    MNode m; memset(&m, 0, sizeof(m));
    M.push_back(m);
    return (int) M.size() - 1;
}
/* made without wrappers, returned as a plain pointer */
static Node mk(int id)
{
    Node n = GGC_NEW(Node);
    long l = id; GGC_WD(n, id, l); l = id * 7919L + 13; GGC_WD(n, chk, l);
    double d = dOf(id); GGC_WD(n, d, d); short s = (short) (id * 3); GGC_WD(n, s, s);
    M[id].d = d; M[id].s = s;
    return n;
}
/* a new object comes back as a temporary wrapper */
static W fresh(int &id) { id = newModel(); return W(mk(id)); }

/* every way an array wrapper comes to designate an array */
template<typename A, typename T, typename F> static void with(T raw, F f)
{
    switch (vh_below(&R, 7)) {
        case 0: { A p(raw); f(p); break; }
        case 1: { GGC<T> g(raw); A p(g); g = (T) nullptr; f(p); break; }
        case 2: { A q(raw); A p(q); q = (T) nullptr; f(p); break; }
        case 3: { A p; p = raw; f(p); break; }
        case 4: { A p; { GGC<T> g(raw); p = g; } f(p); break; }
        case 5: { A p; { A q(raw); p = q; } f(p); break; }
        default: { GGC<T> g; { A q(raw); g = q; } A p(g); f(p); break; }
    }
}

static void op()
{
    Slot &a = some(), &b = some();
    W &wa = *a.w, &wb = *b.w;
    switch (vh_below(&R, 20)) {
        case 0: { int id = newModel(); wa = mk(id); a.id = id; break; }
        case 1: { int id; wa = fresh(id); a.id = id; break; }
        case 2: wa = wb; a.id = b.id; break;
        case 3: case 4: if (a.id) { wa->next = wb; M[a.id].next = b.id; stores++; } break;
        case 5: if (a.id) { wa->other = wb; M[a.id].other = b.id; stores++; } break;
        case 6: if (a.id && b.id) { Node n = wb->next; wa->other = n; M[a.id].other = M[b.id].next; stores++; } break;
        case 7: if (a.id && b.id) { wa->next = wb->next; M[a.id].next = M[b.id].next; stores++; } break;
        case 8: if (a.id) { Node n = wa->next; int id = M[a.id].next; wa = n; a.id = id; } break;
        case 9: if (a.id) {
            if (!M[a.id].arr) { PA pa((NodeArray) GGC_NEW_PA(Node, ALEN)); wa->arr = pa; M[a.id].arr = true; }
            NodeArray raw = wa->arr; bool only = vh_pct(&R, 30);
            with<PA>(raw, [&](PA &pa) {
                int i = (int) vh_below(&R, ALEN);
                pa.put(i, wb.get()); M[a.id].a[i] = b.id; stores++;
                NodeArray none = NULL; if (only) wa->arr = none;   /* nothing but the wrapper holds it */
                if (vh_pct(&R, 10)) collect();
                checkNode(pa[i], b.id, "put, then []");
                if (only) wa->arr = pa;
            });
            break; }
            break;
        case 10: if (a.id) {
            if (!M[a.id].nums) { DA da((GGC_long_Array) GGC_NEW_DA(long, ALEN)); wa->nums = da; M[a.id].nums = true; }
            GGC_long_Array raw = wa->nums; bool only = vh_pct(&R, 30);
            with<DA>(raw, [&](DA &da) {
                int i = (int) vh_below(&R, ALEN); long v = (long) vh_next(&R);
                da.put(i, v); M[a.id].n[i] = v;
                GGC_long_Array none = NULL; if (only) wa->nums = none;
                if (vh_pct(&R, 10)) collect();
                if (da[i] != v) vh_viol("data", "put, then []");
                if (da.get(i) != v) vh_viol("data", "put, then get");
                if (only) wa->nums = da;
            });
            break; }
            break;
        case 11: if (a.id && M[a.id].arr) { NodeArray raw = wa->arr; PA pa(raw); int i = (int) vh_below(&R, ALEN); int id = M[a.id].a[i]; wb = pa[i]; b.id = id; } break;
        case 12: if (a.id) { double d = (double) vh_below(&R, 1000000) / 3; wa->d = d; M[a.id].d = d; short s = (short) vh_next(&R); wa->s = s; M[a.id].s = s; } break;
        case 13: if (a.id && b.id) { wa->d = wb->d; M[a.id].d = M[b.id].d; } break;
        case 14: /* C macros on what the wrapper designates */
            if (a.id) { Node n = wa.get(), m = wb.get(); GGC_WP(n, next, m); M[a.id].next = b.id; stores++; } break;
        case 15: if (vh_pct(&R, 15)) wa = (Node) NULL, a.id = 0; break;
        case 16: if ((wa == wb) != (a.id == b.id)) vh_viol("compare", "== of wrappers"); { Node n = wb.get(); if ((wa == n) != (a.id == b.id)) vh_viol("compare", "== with a pointer"); } if (!wa != (a.id == 0)) vh_viol("compare", "!"); break;
        case 17: junk(8); break;
        case 18: if (vh_pct(&R, 12)) collect(); break;
        default: checkDeep(wa, a.id, "at random"); break;
    }
    GGC_YIELD();
}
static void ops(int n) { while (n--) op(); }

/* ---- frames ---- */
struct Thrown { int depth; };
static void frame(int depth);
struct Holder {
    W a; PA p; W b; DA d;
    Holder(Node n, NodeArray arr) : a(n), p(arr), b(), d() {}
};
static W byValue(W a, int ida, W b, int idb, int &idr, int depth)
{
    Reg ra(a, ida), rb(b, idb);
    ops(6);
    if (vh_pct(&R, 50)) frame(depth - 1);
    if (vh_pct(&R, 30)) collect();
    returns++;
    switch (vh_below(&R, 4)) {
        case 0: idr = ra.s.id; return a;
        case 1: idr = rb.s.id; return b;
        case 2: { W c(a); Reg rc(c, ra.s.id); ops(3); idr = rc.s.id; return c; }
        default: { int id; W c = fresh(id); W e = c; Reg rc(c, id), re(e, id); ops(3); idr = rc.s.id; if (vh_pct(&R, 50)) { idr = re.s.id; return e; } return c; }
    }
}
static W local(int &idr, int depth)
{
    W w; Reg r(w, 0);
    ops(6);
    if (depth > 0 && vh_pct(&R, 40)) frame(depth - 1);
    idr = r.s.id;
    returns++;
    return w;
}
static PA arrays(PA p, DA d)            /* both by value, one returned */
{
    junk(5); if (vh_pct(&R, 30)) collect();
    if (d.ptr) { long v = d[0]; d.put(0, v); }
    returns++;
    return p;
}
static void byRef(Slot &s, int depth)
{
    W &w = *s.w;
    if (vh_pct(&R, 50)) { int id = newModel(); w = mk(id); s.id = id; }
    if (depth > 0) frame(depth - 1);
    checkDeep(w, s.id, "reference parameter");
}
static void frame(int depth)
{
    frames++;
    size_t before = scope.size();
    vh_distinct("frames", vh_hash(vh_hash((uint64_t) depth, before), vh_below(&R, 1)));
    if (depth <= 0) {
        if (vh_pct(&R, 25)) { throws_++; Thrown t; t.depth = depth; throw t; }
        ops(4);
        return;
    }
    try {
        switch (vh_below(&R, 9)) {
            case 0: {                          /* nested blocks */
                W a; Reg ra(a, 0); ops(5);
                { W b(a); Reg rb(b, ra.s.id); W c = b; Reg rc(c, rb.s.id); ops(8); frame(depth - 1); }
                { int id; W b = fresh(id); Reg rb(b, id); ops(5); frame(depth - 1); }
                checkDeep(a, ra.s.id, "after inner blocks");
                break; }
            case 1: {                          /* a loop of wrappers */
                for (int i = 0; i < 5; i++) { int id; W a = fresh(id); Reg ra(a, id); ops(3); if (i == 2) frame(depth - 1); if (i == 3 && vh_pct(&R, 30)) continue; if (vh_pct(&R, 10)) break; }
                break; }
            case 2: {
                Slot &s = some(), &t = some(); int idr = 0;
                W r = byValue(*s.w, s.id, *t.w, t.id, idr, depth); Reg rr(r, idr);
                checkDeep(r, idr, "returned by value");
                ops(4);
                break; }
            case 3: {                          /* assigned from what is returned */
                int idr = 0; W a; Reg ra(a, 0); ops(4);
                a = local(idr, depth - 1); ra.s.id = idr;
                checkDeep(a, idr, "assigned from a returned wrapper");
                ops(4); break; }
            case 4: byRef(some(), depth); break;
            case 5: {                          /* members of a structure */
                int id = newModel(); NodeArray arr = GGC_NEW_PA(Node, ALEN);
                { PA keep(arr); W n(mk(id)); { NodeArray k = keep.ptr;
                  Holder h(n.get(), k); Reg ra(h.a, id), rb(h.b, 0);
                  h.a->arr = h.p; M[id].arr = true;
                  h.d = (GGC_long_Array) GGC_NEW_DA(long, ALEN); h.a->nums = h.d; M[id].nums = true;
                  ops(6); frame(depth - 1);
                  { Node o = rb.s.w->get(); h.p.put(2, o); M[id].a[2] = rb.s.id; }
                  checkNode(h.p[2], rb.s.id, "array in a structure"); checkNode(n.get(), id, "wrapper beside a structure"); } }
                break; }
            case 6: {                          /* an array of wrappers */
                W ws[4]; Reg r0(ws[0], 0), r1(ws[1], 0), r2(ws[2], 0), r3(ws[3], 0);
                ops(12); frame(depth - 1); ops(4);
                for (int i = 0; i < 4; i++) { Reg *rs[] = { &r0, &r1, &r2, &r3 }; checkDeep(ws[i], rs[i]->s.id, "array of wrappers"); }
                break; }
            case 7: {                          /* array wrappers through a call */
                int id = newModel(); W n(mk(id)); Reg rn(n, id);
                PA p((NodeArray) GGC_NEW_PA(Node, ALEN)); DA d((GGC_long_Array) GGC_NEW_DA(long, ALEN));
                Slot &s = some(); p.put(5, s.w->get());
                PA q = arrays(p, d); if (!(q == p)) vh_viol("wrong-object", "array wrapper returned by value");
                checkNode(q[5], s.id, "array wrapper returned by value");
                n->arr = q; int nid = rn.s.id; if (nid) { M[nid].arr = true; memset(M[nid].a, 0, sizeof(M[nid].a)); M[nid].a[5] = s.id; }
                q = arrays(PA(), d); if (q.ptr) vh_viol("not-null", "null array wrapper");
                q = p; p = (NodeArray) NULL; collect(); checkNode(q[5], s.id, "assigned array wrapper");
                break; }
            default: {                         /* plain macros in a frame below wrappers */
                Node x = NULL, y = NULL; int id = newModel();
                GGC_PUSH_2(x, y);
                x = mk(id); y = x;
                { W w(x); Reg r(w, id); ops(5); frame(depth - 1); }
                checkNode(x, id, "pushed beside wrappers"); if (x != y) vh_viol("wrong-object", "two roots of one object");
                break; }
        }
    } catch (Thrown &) {
        /* rethrown half of the time, and not past main's frame */
        if (scope.size() != before) vh_bug("unwinding");
        if (vh_pct(&R, 30)) collect();
        if (before > 3 && vh_pct(&R, 50)) throw;
        if (!scope.empty()) { Slot &s = any(); checkDeep(*s.w, s.id, "after unwinding"); }
    }
    if (scope.size() != before) vh_bug("frames");
}

#ifdef GGGGC_FEATURE_FINALIZERS
/* lifetimes: an object that only wrappers designate lives as long as they do */
static int finCount; static long finId;
static void onFin(void *v) { Node n = (Node) v; finCount++; finId = GGC_RD(n, id); }
static void settle() { for (int i = 0; i < GGGGC_GENERATIONS + 2; i++) { junk(3); collect(); } }
static W passOn(W a, bool collectIn) { if (collectIn) settle(); return a; }
static void lifetime(int kind)
{
    int id = newModel();
    finCount = 0;
    try {
        W a(mk(id));
        { Node n = a.get(); GGC_FINALIZE(n, onFin); }
        switch (kind) {
            case 0: settle(); break;
            case 1: { W b(a); a = (Node) NULL; settle(); checkNode(b.get(), id, "copy"); a = b; } settle(); break;
            case 2: { W b = passOn(a, true); a = (Node) NULL; settle(); checkNode(b.get(), id, "returned"); a = b; } break;
            case 3: a = passOn(passOn(a, false), true); settle(); break;
            case 4: { W b(a); a = (Node) NULL; settle(); throw 1; }
            case 5: { PA p((NodeArray) GGC_NEW_PA(Node, ALEN)); p.put(3, a.get()); a = (Node) NULL; settle(); checkNode(p[3], id, "held by an array"); } break;
            default: { Holder h(a.get(), NULL); a = (Node) NULL; settle(); h.b = h.a; h.a = (Node) NULL; settle(); checkNode(h.b.get(), id, "member wrapper"); } break;
        }
        if (finCount) vh_viol("lifetime", "an object was finalized while a wrapper designated it (kind %d)", kind);
        if (kind == 0 || kind == 1 || kind == 2 || kind == 3) checkNode(a.get(), id, "lifetime");
    } catch (int) {}
    if (finCount) vh_viol("lifetime", "an object was finalized while a wrapper designated it (kind %d)", kind);
    settle();
    if (finCount != 1 || finId != id) vh_viol("lifetime", "an object was not finalized after the wrappers that designated it had ended (kind %d)", kind);
    vh_stat("lifetimes", 1);
}
#endif

int main(int argc, char **argv)
{
    vh_init(argc, argv);
    R.s = (uint64_t) vh_arg("seed", 1) * 4001 + 17;
    long rounds = vh_arg("rounds", 60), depth = vh_arg("depth", 5);
    {
        W a, b, c; Reg ra(a, 0), rb(b, 0), rc(c, 0);
        for (long i = 0; i < rounds; i++) {
            ops(40);
            try { frame((int) (1 + vh_below(&R, (uint64_t) depth))); } catch (Thrown &) {}
            if (vh_pct(&R, 30)) collect();
            checkDeep(a, ra.s.id, "round"); checkDeep(b, rb.s.id, "round"); checkDeep(c, rc.s.id, "round");
#ifdef GGGGC_FEATURE_FINALIZERS
            if (i % 6 == 0) lifetime((int) vh_below(&R, 7));
#endif
        }
        collect();
    }
    vh_stat("collections", collections); vh_stat("objects_verified", verified); vh_stat("frames", frames); vh_stat("returns", returns); vh_stat("exceptions", throws_); vh_stat("stores", stores);
    vh_distinct("run", vh_hash(vh_hash(vh_hash(1, (uint64_t) verified), (uint64_t) frames), (uint64_t) stores));
    vh_sample("%ld frames, %ld wrappers returned by value, %ld exceptions, %ld stores, %ld comparisons over %ld collections", frames, returns, throws_, stores, verified, collections);
    vh_done();
    return 0;
}
