"""Write harness/typed_types.h: types declared with the type macros, with all
kinds of layouts. Deterministic; the output is committed."""
import random
R = random.Random(4711)
DT = [('char', 1), ('short', 2), ('int', 4), ('unsigned', 4), ('long', 8), ('size_t', 8), ('float', 4), ('double', 8), ('Tri', 3), ('Big3', 24), ('Big17', 136), ('Odd', 20), ('GGC_voidp', 8)]
specs = []
def layout(words, where):
    """where: set of word offsets (after the header and the id) that are pointers; everything else data"""
    return words, where
# every single pointer position up to the last that one bitmap word can describe (the header may take two words, the id one)
for pos in (0, 1, 2, 26, 27, 28, 29, 30, 31, 32, 33, 57, 58, 59, 60): specs.append((max(pos + 1, 1) + R.choice([0, 0, 1, 5]), {pos}))
for n in (0, 1, 2, 3, 4, 7, 29, 30, 31, 32, 61, 62, 63, 64, 65, 100, 126, 127, 128, 129, 200): specs.append((n, set()))
for n in (1, 2, 3, 5, 12, 28, 29, 30, 31, 40, 59, 61): specs.append((n, set(range(n)) if n < 61 else set(range(61))))
for n in (4, 9, 30, 31, 33, 58, 61, 62, 64, 66, 90, 128, 180): specs.append((n, {i for i in range(min(n, 61)) if R.random() < .5}))
for n in (61, 70, 130): specs.append((n, {60}))
for n in (61, 70, 130): specs.append((n, {0, 60}))
out = ['/* Generated by tools/gen_typed.py. */', '']
names = []
for t, (n, ptrs) in enumerate(specs):
    T = 'T%d' % t; mem = []; p = d = w = 0
    ps, ds = [], []
    while w < n:
        if w in ptrs:
            nm = 'p%d' % p; p += 1; mem.append('    GGC_MPTR(Leaf, %s);' % nm); ps.append(nm); w += 1; continue
        free = 1
        while w + free < n and (w + free) not in ptrs: free += 1
        opts = [(ty, sz) for ty, sz in DT if sz in (8, 24, 136) and sz // 8 <= free]
        if R.random() < .35:
            # small things that share a word
            k = R.choice([('char', 8), ('short', 4), ('int', 2), ('float', 2), ('Tri', 2), ('unsigned', 2)])
            for _ in range(k[1]):
                nm = 'd%d' % d; d += 1; mem.append('    GGC_MDATA(%s, %s);' % (k[0], nm)); ds.append((k[0], nm))
            if k[0] == 'Tri':       # 6 bytes: round up with a char and a short's alignment
                nm = 'd%d' % d; d += 1; mem.append('    GGC_MDATA(short, %s);' % nm); ds.append(('short', nm))
            w += 1; continue
        ty, sz = R.choice(opts)
        nm = 'd%d' % d; d += 1; mem.append('    GGC_MDATA(%s, %s);' % (ty, nm)); ds.append((ty, nm)); w += sz // 8
    out += ['GGC_TYPE(%s)' % T, '    GGC_MDATA(size_t, id);'] + mem
    out += ['GGC_END_TYPE(%s,' % T] + (['    GGC_PTR(%s, %s)' % (T, x) for x in ps] or ['    GGC_NO_PTRS']) + ['    )']
    out += ['static void *new_%s(void) { return GGC_NEW(%s); }' % (T, T)]
    out += ['static void setp_%s(void *o, int k, Leaf v) { %s t = (%s) o; (void) t; (void) v; switch (k) {' % (T, T, T)]
    out += ['    case %d: GGC_WP(t, %s, v); break;' % (i, x) for i, x in enumerate(ps)] + ['    default: vh_bug("member"); } }']
    out += ['static Leaf getp_%s(void *o, int k) { %s t = (%s) o; (void) t; switch (k) {' % (T, T, T)]
    out += ['    case %d: return GGC_RP(t, %s);' % (i, x) for i, x in enumerate(ps)] + ['    default: return NULL; } }']
    out += ['static void setd_%s(void *o, uint64_t s) { %s t = (%s) o; { size_t v = s; GGC_WD(t, id, v); }' % (T, T, T)]
    out += ['    { %s v; bits(&v, sizeof(v), s, %d); GGC_WD(t, %s, v); }' % (ty, i, x) for i, (ty, x) in enumerate(ds)] + ['}']
    out += ['static int chkd_%s(void *o, uint64_t s) { %s t = (%s) o; if (GGC_RD(t, id) != s) return -1;' % (T, T, T)]
    out += ['    { %s v = GGC_RD(t, %s); if (!same(&v, sizeof(v), s, %d)) return %d; }' % (ty, x, i, i + 1) for i, (ty, x) in enumerate(ds)] + ['    return 0; }']
    out += ['static int zero_%s(void *o) { %s t = (%s) o; %s { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }'
            % (T, T, T, ''.join('if (GGC_RP(t, %s)) return 1; ' % x for x in ps))]
    out += ['static const size_t off_%s[] = { %s };' % (T, ', '.join(['offsetof(struct %s__ggggc_struct, %s__ptr) / sizeof(size_t)' % (T, x) for x in ps] + ['0'])), '']
    names.append((T, len(ps), len(ds)))
out += ['struct TInfo { const char *name; int np, nd; size_t words; const size_t *off; void *(*mk)(void); void (*setp)(void *, int, Leaf); Leaf (*getp)(void *, int); void (*setd)(void *, uint64_t); int (*chkd)(void *, uint64_t); int (*zero)(void *); };',
        'static const struct TInfo tinfo[] = {']
out += ['    { "%s", %d, %d, (sizeof(struct %s__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_%s, new_%s, setp_%s, getp_%s, setd_%s, chkd_%s, zero_%s },' % ((T, p, d) + (T,) * 8) for T, p, d in names]
out += ['};', '#define NT (sizeof(tinfo) / sizeof(tinfo[0]))']
open('/verif/harness/typed_types.h', 'w').write('\n'.join(out) + '\n')
print(len(names), 'types')
