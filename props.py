"""What each check runs: property -> cells (see check.py)."""
import os
from check import Build, Cell, V

def D(*names):
    return ' '.join('-DGGGGC_' + n for n in names)
F = {
    'none': '', 'fin': D('FEATURE_FINALIZERS'), 'tag': D('FEATURE_TAGGING'), 'ext': D('FEATURE_EXTTAG'), 'jit': D('FEATURE_JITPSTACK'),
}
def feats(*fs): return ' '.join(F[f] for f in fs if F[f])

NOBAR = '-include %s/harness/nobar.h' % V
MMAP = '-D_DEFAULT_SOURCE -D_DARWIN_C_SOURCE -include %s/harness/use_mmap.h' % V

# the builds of the library that a graph-like monitor runs with
VARS = {
    'p13c10': ('gcc', D('POOL_SIZE=13', 'CARD_SIZE=10')),
    'p15':    ('gcc', D('POOL_SIZE=15')),
    'p20':    ('gcc', D('POOL_SIZE=20')),
    'p22':    ('gcc', D('POOL_SIZE=22', 'CARD_SIZE=14')),
    'p15cxx': ('g++', D('POOL_SIZE=15')),
    'p15O3':  ('gcc', D('POOL_SIZE=15')),
    'clang':  ('clang', D('POOL_SIZE=14')),
    'nognuc': ('g++', D('POOL_SIZE=15', 'NO_GNUC_FEATURES')),
    'gen1':   ('gcc', D('POOL_SIZE=15', 'GENERATIONS=1')),
    'gen5':   ('gcc', D('POOL_SIZE=14', 'GENERATIONS=5', 'CARD_SIZE=9')),
    'gen3':   ('gcc', D('POOL_SIZE=13', 'GENERATIONS=3', 'CARD_SIZE=8')),
    'debug':  ('gcc', D('POOL_SIZE=15', 'DEBUG_MEMORY_CORRUPTION')),
    'ms':     ('gcc', D('POOL_SIZE=15', 'COLLECTOR=portablems')),
    'ms20':   ('gcc', D('POOL_SIZE=20', 'COLLECTOR=portablems')),
    'alldbg': ('gcc', D('POOL_SIZE=13', 'GENERATIONS=3', 'CARD_SIZE=9', 'DEBUG')),
    'msalldbg': ('gcc', D('POOL_SIZE=13', 'COLLECTOR=portablems', 'DEBUG')),
    'msdebug': ('gcc', D('POOL_SIZE=14', 'COLLECTOR=portablems', 'DEBUG_MEMORY_CORRUPTION')),
    'malloc': ('gcc', D('POOL_SIZE=14', 'USE_MALLOC')),
    'sbrk':   ('gcc', D('POOL_SIZE=14', 'USE_SBRK', 'NO_THREADS')),
    'mmap':   ('gcc', D('POOL_SIZE=14') + ' ' + MMAP),
    'port':   ('gcc', D('POOL_SIZE=15', 'COLLECTOR=portablems', 'USE_PORTABLE_ALLOCATOR')),
    'tiny':   ('gcc', D('DEBUG_TINY_HEAP')),
    'lazy':   ('gcc', D('POOL_SIZE=15', 'NO_GNUC_CONSTRUCTOR')),
    'genbar': ('gcc', D('POOL_SIZE=14') + ' ' + NOBAR),
    'genbarcxx': ('g++', D('POOL_SIZE=15') + ' ' + NOBAR),
    'genbarms': ('gcc', D('POOL_SIZE=14', 'COLLECTOR=portablems') + ' ' + NOBAR),
    'nothr':  ('gcc', D('POOL_SIZE=14', 'NO_THREADS')),
    'dflt':   ('gcc', ''),
    'msportc': ('gcc', D('POOL_SIZE=14', 'NO_GNUC_FEATURES', 'COLLECTOR=portablems')),
    'portc':  ('gcc', D('POOL_SIZE=14', 'NO_GNUC_FEATURES', 'GENERATIONS=3')),
    'gen9':   ('gcc', D('POOL_SIZE=13', 'GENERATIONS=9', 'CARD_SIZE=9')),
    'c6':     ('gcc', D('POOL_SIZE=14', 'CARD_SIZE=6', 'GENERATIONS=3')),
    'c13':    ('gcc', D('POOL_SIZE=14', 'CARD_SIZE=13')),
    'p12':    ('gcc', D('POOL_SIZE=12', 'CARD_SIZE=8', 'GENERATIONS=4')),
    'O0':     ('gcc', D('POOL_SIZE=15')),
    'clangO3': ('clang', D('POOL_SIZE=13', 'CARD_SIZE=9', 'GENERATIONS=3')),
    'big':    ('gcc', D('POOL_SIZE=20', 'CARD_SIZE=12')),
}
ALLV = [v for v in VARS if not v.startswith('genbar')]
OPTS = {'p15O3': '-O3', 'O0': '-O0', 'clangO3': '-O3'}

def B(harness, var, *fs, **kw):
    cc, fl = VARS[var]
    kw.setdefault('opt', OPTS.get(var, '-O2'))
    return Build(harness, cc, (fl + ' ' + feats(*fs)).strip(), **kw)

PROPS = {}
def prop(pid, rule, technique, level_note, needs, level='exploration'):
    def d(f):
        PROPS[pid] = dict(rule=rule, technique=technique, level_note=level_note, needs=needs, level=level, cells=f)
        return f
    return d
# how often the runs of a check are repeated with other seeds, so that each takes about a minute
SCALE = {'C01': 2, 'C02': 2, 'C03': 3, 'C04': 3, 'C05': 2, 'C06': 3, 'C08': 2, 'C09': 2, 'C10': 2, 'C11': 3, 'C12': 8,
         'C13': 3, 'C15': 3, 'C16': 2, 'C17': 2, 'C18': 8, 'C19': 8}
def cells(pid, tier):
    cs = PROPS[pid]['cells'](tier)
    for c in cs: c.n *= SCALE.get(pid, 1)
    return cs

SHADOW = 'shadow-model runtime monitor over randomized hostile mutators'
TRUST = ' Trusted: the harness follows the API rules; compilers; x86-64 Linux only.'

def graph(var, fs, profile, n, extra='', ops=8000):
    fs = fs.split('+') if fs else []
    return Cell(B('graph.c', var, *fs), ('profile=%s ops=%d %s' % (profile, ops, extra)).strip(), n)

BIGV = ('p12', 'gen3', 'gen9', 'ms', 'p13c10', 'c6', 'p15')
def grow(fs, profile, n, vs=BIGV, ops=8000):
    """hundreds of pools and thousands of objects"""
    return [graph(v, fs, profile, n, 'live=%d grow=%d' % (l, g), ops) for v in vs for l, g in (((150, 2000),) if n < 2 else ((150, 2000), (40, 300)))] + \
           ([graph('dflt', fs, profile, 1, 'live=2 grow=20000', 2500)] if 'p15' in vs else [])
def typed(var, fs, n, extra='ops=4000'):
    return Cell(B('typed.c', var, *(fs.split('+') if fs else [])), extra, n)

@prop('C01', 'one run = one seed of a random API-conforming mutator of thousands of operations on one build; non-trivial if at least 5 collections were followed by a complete comparison of heap and model and at least 200 objects were compared; distinct by statistics and heap shapes seen',
      SHADOW, 'Every object reachable in the model is compared with the heap after collections, in every build variant; the inputs are sampled.' + TRUST,
      {'graph.c': {'collections': 5, 'objects_verified': 200}, 'typed.c': {'collections': 5}, 'fit.c': {'allocations': 200}, 'over.c': {'oversized': 10}, 'cxx.cc': {'collections': 20}, 'coll.c': {'ops_with_collection': 20}})
def c01(tier):
    cs = []
    for v in ALLV:
        for p in ('mixed', 'store'): cs.append(graph(v, '', p, 6))
    for v in ('p20', 'ms20'): cs.append(graph(v, '', 'mixed', 2)); cs.append(graph(v, '', 'alloc', 2))
    for v in ('p15', 'gen5', 'p13c10', 'ms', 'gen3'):
        cs.append(graph(v, '', 'roots', 6)); cs.append(graph(v, '', 'alloc', 6))
        cs.append(graph(v, '', 'mixed', 4, 'verify=1', 1500))
        cs.append(graph(v, '', 'mixed', 3, 'live=25', 15000))
    for f in ('fin', 'tag', 'ext', 'jit'):
        for v in ('p13c10', 'gen5', 'ms'): cs.append(graph(v, f, 'mixed', 5))
    for v in ALLV:
        cs.append(typed(v, '', 1)); cs.append(fit(v, '', 1))
        if v in CXXV: cs.append(cxx(v, '', 1))
        cs.append(coll(v, '', 'profile=both ops=3000', 1))
    cs += grow('', 'mixed', 2) + grow('', 'store', 1) + grow('', 'roots', 1)
    for v in BIGV: cs.append(graph(v, '', 'mixed', 1, '', 100000)); cs.append(graph(v, '', 'roots', 1, 'depth=400', 20000))
    return cs

@prop('C02', 'one run = one seed of a store-heavy mutator (members, array elements, user pointers; holders of all ages) on one build; non-trivial if at least 100 pointer stores and 5 collections with comparison; distinct by statistics and heap shapes',
      SHADOW, 'A lost old-to-young reference shows as a wrong or null reference, or as damage, in the comparison after some later collection. Sampled.' + TRUST,
      {'graph.c': {'collections': 5, 'op_store': 100}, 'typed.c': {'collections': 5}, 'cxx.cc': {'collections': 20}, 'coll.c': {'ops_with_collection': 20}, 'foot.c': {'footprints': 1}})
def c02(tier):
    cs = []
    for v in ALLV:
        if v in ('gen1', 'ms', 'msdebug', 'port', 'msportc'): continue
        cs.append(graph(v, '', 'store', 10))
        cs.append(graph(v, '', 'store', 4, 'live=20', 12000))
    for v in ('gen5', 'gen3', 'p13c10'):
        cs.append(graph(v, '', 'store', 8, 'verify=1', 1500)); cs.append(graph(v, '', 'alloc', 6))
        for f in ('fin', 'tag', 'ext', 'jit'): cs.append(graph(v, f, 'store', 6))
    for v in ('dflt', 'p15', 'gen3', 'gen5', 'p13c10', 'c6', 'gen9', 'debug', 'malloc'):
        cs.append(cxx(v, '', 3)); cs.append(coll(v, '', 'profile=both ops=4000', 3)); cs.append(typed(v, '', 2))
        for k in ('age', 'queue', 'drop1', 'slots', 'parrays', 'list', 'map'): cs.append(foot(v, '', k, 1, 'vol=60 live=10'))
    cs += grow('', 'store', 3, ('p12', 'gen3', 'gen9', 'p13c10', 'c6', 'p15', 'gen5')) + grow('', 'mixed', 1, ('p12', 'gen3', 'gen9', 'p13c10', 'c6'))
    for v in ('p12', 'gen3', 'p15'): cs.append(graph(v, '', 'store', 1, '', 100000))
    return cs

@prop('C04', 'one run = one seed of an allocation-heavy mutator (all entry points, sizes from empty arrays to a whole pool, fresh and recycled memory that held junk) on one build; non-trivial if at least 300 new objects were inspected word by word and 3 collections happened; distinct by statistics and sizes seen',
      SHADOW, 'Every new object is inspected at once (zero, type, length, alignment, inside a pool) and for overlap with all reachable objects at each comparison. Sampled.' + TRUST,
      {'graph.c': {'collections': 3, 'fresh_checked': 300}, 'typed.c': {'collections': 3}, 'fit.c': {'allocations': 200}, 'over.c': {'oversized': 10}, 'mt.c': {'objects': 500}})
def c04(tier):
    cs = []
    for v in ALLV: cs.append(graph(v, '', 'alloc', 8)); cs.append(graph(v, '', 'desc', 4))
    for v in ('p15', 'gen5', 'ms', 'msdebug', 'debug'):
        for f in ('fin', 'tag', 'ext', 'jit'): cs.append(graph(v, f, 'alloc', 4))
        cs.append(graph(v, '', 'alloc', 3, 'verify=1', 1200))
    for v in ALLV: cs.append(fit(v, '', 1)); cs.append(typed(v, '', 1)); cs.append(graph(v, '', 'mixed', 2))
    for v in ('p15', 'ms', 'gen5', 'portc'): cs.append(over(v, '', 1))
    for v in MT4: cs.append(mt(v, '', 'mixed', 1, 'threads=4 hoard=30 ops=80')); cs.append(mt(v, '', 'churn', 1, 'threads=4 rounds=8'))
    cs += grow('', 'alloc', 1) + grow('', 'desc', 1)
    return cs

@prop('C05', 'one run = one seed of a mutator over random type descriptions (any size, any layout of pointer and data words, data words holding values that look like object addresses) on one build; non-trivial if at least 30 descriptors were made and 5 collections with comparison happened; distinct by statistics and sizes seen',
      SHADOW, 'Descriptors are compared bit by bit with what was asked for, fields are followed by the model. Type macros are exercised with all pointer positions in typed.c. Sampled.' + TRUST,
      {'graph.c': {'collections': 5, 'op_descriptor': 30}, 'typed.c': {'types': 1, 'collections': 5}, 'mt.c': {'barriers': 20}, 'cxx.cc': {'collections': 20}, 'foot.c': {'footprints': 1}})
def c05(tier):
    cs = []
    for v in ALLV: cs.append(graph(v, '', 'desc', 6)); cs.append(typed(v, '', 3))
    for v in ('p15', 'gen5', 'ms', 'p13c10', 'nognuc'):
        for f in ('fin', 'tag', 'ext', 'jit'): cs.append(graph(v, f, 'desc', 5)); cs.append(typed(v, f, 2))
    for v in MT4: cs.append(mt(v, '', 'first', 2, 'threads=6 delay=10 ops=40'))
    for v in ('p20', 'p22', 'ms20'): cs.append(mt(v, '', 'first', 5, 'threads=6 delay=10 ops=40')); cs.append(graph(v, '', 'desc', 3))
    for v in MT4 + ('msdebug', 'debug', 'gen1'): cs.append(mt(v, '', 'types', 1, 'threads=4 rounds=12'))
    for f in ('ext', 'tag'): cs.append(mt('p15', f, 'types', 1, 'threads=4 rounds=12')); cs.append(mt('ms', f, 'types', 1, 'threads=4 rounds=12'))
    for v in ('p15', 'gen3', 'ms', 'dflt'): cs.append(cxx(v, '', 2)); cs.append(foot(v, '', 'descriptors', 1, 'vol=60 live=10'))
    cs += grow('', 'desc', 2)
    return cs

@prop('C06', 'one run = one seed of a mutator that enters and leaves frames of all push macros (1 to 32 variables, counted, manual pops, early returns, aliased roots, globalized variables) on one build; non-trivial if at least 50 frames were entered and 5 collections with comparison happened; distinct by statistics and frames seen',
      SHADOW, 'Every pushed or globalized variable is compared after collections. That popped roots do not keep objects is decided by the footprint and finalizer monitors. Sampled.' + TRUST,
      {'graph.c': {'collections': 5, 'op_frame': 50}, 'mt.c': {'barriers': 20}, 'foot.c': {'footprints': 1}})
def c06(tier):
    cs = []
    for v in ALLV: cs.append(graph(v, '', 'roots', 8))
    for v in ('p15', 'gen5', 'ms', 'p13c10', 'nognuc'):
        for f in ('fin', 'tag', 'ext', 'jit'): cs.append(graph(v, f, 'roots', 5))
    for v in ALLV: cs.append(graph(v, 'fin', 'fin', 2)); cs.append(graph(v, 'fin', 'roots', 2))
    for v in ('p15', 'gen5', 'gen3', 'ms', 'portc', 'nognuc'):
        for k in ('frames', 'slots', 'window'): cs.append(foot(v, '', k, 1, 'vol=60 live=10'))
        cs.append(mt(v, '', 'churn', 2, 'threads=4 rounds=8')); cs.append(mt(v, '', 'mixed', 1, 'threads=4'))
    cs += grow('', 'roots', 2)
    for v in BIGV: cs.append(graph(v, '', 'roots', 1, 'depth=400', 20000))
    return cs

def mt(var, fs, profile, n, extra, timeout=110, **kw):
    fs = fs.split('+') if fs else []
    return Cell(B('mt.c', var, *fs, **kw), ('profile=%s %s' % (profile, extra)).strip(), n, timeout=timeout)
CXXV = [v for v in ALLV if v not in ('lazy',) and 'NO_GNUC_FEATURES' not in VARS[v][1]] + ['nognuc']
def fit(var, fs, n, extra='ops=60'):
    return Cell(B('fit.c', var, *(fs.split('+') if fs else [])), extra, n)
def over(var, fs, n, extra='trials=60'):
    return Cell(B('over.c', var, *(fs.split('+') if fs else [])), extra, n)
MTV = ('p15', 'p15cxx', 'clang', 'gen1', 'gen5', 'p13c10', 'debug', 'ms', 'msdebug', 'nognuc', 'malloc', 'mmap', 'p15O3', 'dflt', 'portc', 'genbar', 'genbarcxx', 'genbarms')
MT4 = ('p15', 'gen5', 'ms', 'p13c10', 'genbar')

MTSHADOW = 'multi-threaded runtime monitor over self-describing objects, with injected delays'

@prop('C08', 'one run = one seed of several threads building, linking, passing on and dropping objects that describe themselves, with injected delays at synchronization, on one build; non-trivial if 10 collections, 500 objects and 100 walks; distinct by statistics and thread positions seen at collections',
      MTSHADOW, 'Every object read anywhere is compared with what its identity says it must hold. Schedules are those the machine and the injected delays produce.' + TRUST,
      {'mt.c': {'objects': 500, 'barriers': 30, 'progress': 20}, 'coll.c': {'ops_with_collection': 5}})
def c08(tier):
    cs = []
    for v in MTV:
        cs.append(mt(v, '', 'mixed', 2, 'threads=4'))
        cs.append(mt(v, '', 'plain', 2, 'threads=6 delay=10 ops=80'))
        cs.append(mt(v, '', 'mixed', 1, 'threads=10 delay=4 ops=50'))
        cs.append(mt(v, '', 'mixed', 2, 'threads=4 hoard=30 ops=80'))
        if v != 'dflt': cs.append(mt(v, '', 'recycle', 1, 'threads=3 rounds=25 delay=2'))
        cs.append(mt(v, '', 'types', 1, 'threads=4 rounds=8'))
    for v in MT4:
        for f in ('fin', 'tag', 'ext', 'jit'):
            cs.append(mt(v, f, 'types', 1, 'threads=4 rounds=8 delay=2'))
            cs.append(mt(v, f, 'mixed', 2, 'threads=5 delay=5 ops=80'))
            cs.append(mt(v, f, 'mixed', 2, 'threads=3 hoard=30 ops=80'))
    for v in MT4 + ('dflt', 'gen1', 'portc'):
        for p in ('churn', 'block', 'first'): cs.append(mt(v, '', p, 1, 'threads=5 delay=4 ops=60 rounds=6'))
        cs.append(coll(v, '', 'profile=both ops=2000 bg=1 delay=8', 2))
    for v in ('p20', 'p22', 'ms20'):
        for p in ('first', 'mixed', 'churn'): cs.append(mt(v, '', p, 2, 'threads=6 delay=10 ops=40 rounds=6'))
    return cs

@prop('C09', 'one run = one seed of threads that allocate, collect, yield, block, start, end and first-use types at the same moments, on one build; a logical progress counter is watched: all threads asleep and never scheduled is a deadlock, a standstill is repeated before it counts; non-trivial if 10 collections; distinct by statistics and thread positions at collections',
      'progress and deadlock watchdog over stress with injected delays and failing thread creation', 'Deadlocks that need schedules which were not produced are not seen.' + TRUST,
      {'mt.c': {'barriers': 30, 'progress': 20}, 'fit.c': {'allocations': 200}, 'over.c': {'oversized': 10}, 'foot.c': {'footprints': 1}})
def c09(tier):
    cs = []
    for v in MTV:
        cs.append(mt(v, '', 'first', 4, 'threads=6 delay=10 ops=40'))
        cs.append(mt(v, '', 'churn', 2, 'threads=4 delay=8 rounds=12'))
        cs.append(mt(v, '', 'mixed', 2, 'threads=4 failthread=5 delay=4 ops=80'))
    for v in ('p20', 'ms20'): cs.append(mt(v, '', 'first', 2, 'threads=6 delay=10 ops=40'))
    for v in MT4:
        cs.append(mt(v, '', 'block', 2, 'threads=8 delay=10 ops=50'))
        cs.append(mt(v, '', 'first', 3, 'threads=16 ops=20'))
        for f in ('fin', 'ext', 'jit'): cs.append(mt(v, f, 'first', 2, 'threads=6 delay=10 ops=40'))
    for v in ALLV: cs.append(fit(v, '', 4)); cs.append(over(v, '', 1))
    for f in ('ext', 'fin', 'tag', 'jit'): cs.append(over('p15', f, 1)); cs.append(over('ms', f, 1))
    for v in ('p15', 'gen1', 'gen5', 'ms'):
        for f in ('fin', 'tag', 'ext', 'jit'): cs.append(fit(v, f, 2))
    for v in MT4 + ('dflt', 'gen1', 'portc'):
        cs.append(mt(v, '', 'results', 1, 'threads=4 rounds=3')); cs.append(mt(v, '', 'plain', 1, 'threads=8 delay=6 ops=60'))
        if v not in ('dflt', 'gen1'):
            for k in ('threads', 'mtlong'): cs.append(foot(v, '', k, 1, 'vol=150 live=10'))
    return cs

@prop('C11', 'one run = one seed of threads blocking in every blocking call while others collect, and of scripted waits whose results are known, on one build; non-trivial if a thread was blocked through a collection at least 3 times or 2 scripted rounds ran; distinct by statistics and thread positions',
      MTSHADOW, 'After each blocking call the thread walks everything it holds; results are compared with what the primitive must report.' + TRUST,
      {'mt.c': {'barriers': 30}})
def c11(tier):
    cs = []
    for v in MTV:
        cs.append(mt(v, '', 'block', 3, 'threads=6 delay=6 ops=80'))
        cs.append(mt(v, '', 'results', 2, 'threads=4 rounds=3'))
        cs.append(mt(v, '', 'block', 1, 'threads=4 hoard=30 ops=60'))
    for v in MT4:
        for f in ('fin', 'tag', 'ext', 'jit'):
            cs.append(mt(v, f, 'block', 2, 'threads=5 delay=6 ops=60'))
            cs.append(mt(v, f, 'results', 1, 'threads=4 rounds=2'))
    return cs

@prop('C12', 'one run = one seed of threads that start, publish objects, types and globalized variables, and end, in rounds, on one build; non-trivial if at least 8 threads ended; distinct by statistics',
      MTSHADOW, 'What ended threads published is walked after every round and through collections by others; pools are counted for reuse.' + TRUST,
      {'mt.c': {'threads_ended': 8}, 'foot.c': {'footprints': 1}})
def c12(tier):
    cs = []
    for v in MTV:
        cs.append(mt(v, '', 'churn', 4, 'threads=4 rounds=12'))
        cs.append(mt(v, '', 'churn', 2, 'threads=6 delay=8 rounds=8'))
        if v != 'dflt': cs.append(mt(v, '', 'recycle', 2, 'threads=4 rounds=40'))
    for v in MT4:
        for f in ('fin', 'tag', 'ext', 'jit'): cs.append(mt(v, f, 'churn', 2, 'threads=4 rounds=8 delay=3')); cs.append(mt(v, f, 'recycle', 1, 'threads=3 rounds=20 delay=3'))
    for v in ('p15', 'gen5', 'gen3', 'ms', 'debug', 'malloc', 'gen1', 'portc'):
        cs.append(foot(v, '', 'threads', 2, 'vol=250 live=10'))
        if v in ('p15', 'gen3', 'ms'): cs.append(foot(v, 'fin', 'threads', 1, 'vol=150 live=10'))
        cs.append(mt(v, '', 'first', 1, 'threads=6 delay=8 ops=40 rounds=6'))
    return cs

@prop('C13', 'one run = one seed of a mutator that attaches finalizers to objects of all kinds (several per object), resurrects, allocates and collects in finalizers, on one build; non-trivial if 30 finalizers ran; distinct by statistics',
      'exactly-once monitor over finalizer calls, against reachability in a shadow model', 'Early, late, repeated, missing and garbage calls are all decided by the model. Sampled.' + TRUST,
      {'graph.c': {'finalizers_run': 30}, 'mt.c': {'finalizers': 10}, 'cxx.cc': {'collections': 20}, 'coll.c': {'ops_with_collection': 5}, 'foot.c': {'footprints': 1}})
def c13(tier):
    cs = []
    for v in ALLV: cs.append(graph(v, 'fin', 'fin', 8))
    for v in ('p15', 'gen5', 'gen3', 'ms'):
        cs.append(graph(v, 'fin', 'fin', 4, 'verify=1', 1200)); cs.append(graph(v, 'fin', 'store', 4)); cs.append(graph(v, 'fin', 'desc', 4))
        for g in ('tag', 'ext', 'jit'): cs.append(graph(v, 'fin+' + g, 'fin', 5))
        cs.append(mt(v, 'fin', 'mixed', 2, 'threads=4 ops=80 delay=3'))
        cs.append(mt(v, 'fin', 'churn', 2, 'threads=4 rounds=6'))
        cs.append(cxx(v, 'fin', 2)); cs.append(coll(v, 'fin', 'profile=both ops=2000', 1))
        cs.append(foot(v, 'fin', 'finalizers', 1, 'vol=150 live=10')); cs.append(mt(v, 'fin', 'block', 1, 'threads=5 delay=6 ops=60'))
    cs += grow('fin', 'fin', 2)
    return cs

@prop('C15', 'one run = one seed of a mutator that stores unaligned values (all tag bit combinations, also tagged addresses of live and dead objects) in fields, elements, roots, user pointers and JIT slots, on one build with internal tagging; non-trivial if 5 collections with comparison and 100 stores; distinct by statistics',
      SHADOW, 'Unaligned words must come back bit for bit, aligned ones must designate their object. Sampled.' + TRUST,
      {'graph.c': {'collections': 5, 'op_store': 50}, 'typed.c': {'collections': 5}, 'cxx.cc': {'collections': 20}, 'coll.c': {'ops_with_collection': 5}, 'foot.c': {'footprints': 1}, 'mt.c': {'barriers': 20}})
def c15(tier):
    cs = []
    for v in ALLV: cs.append(graph(v, 'tag', 'tag', 8))
    for v in ('p15', 'gen5', 'ms', 'p13c10', 'msdebug'):
        cs.append(graph(v, 'tag', 'tag', 4, 'verify=1', 1200)); cs.append(graph(v, 'tag', 'store', 4))
        cs.append(graph(v, 'tag+jit', 'jit', 5)); cs.append(graph(v, 'tag+fin', 'fin', 5))
        cs.append(typed(v, 'tag', 3)); cs.append(cxx(v, 'tag', 2)); cs.append(coll(v, 'tag', 'profile=both ops=2000', 2)); cs.append(fit(v, 'tag', 1))
        cs.append(mt(v, 'tag', 'mixed', 1, 'threads=4 delay=4 ops=80'))
        for k in ('slots', 'drop1', 'arrays', 'window'): cs.append(foot(v, 'tag', k, 1, 'vol=60 live=10'))
    cs += grow('tag', 'tag', 2)
    return cs

@prop('C16', 'one run = one seed of a mutator over descriptors with random tag bytes (all sizes, tags on first and last words, bitmaps and arrays) on one build with external tagging; non-trivial if 5 collections with comparison and 10 descriptors; distinct by statistics and sizes seen',
      SHADOW, 'Even-tagged words must designate their object, odd-tagged ones keep their bits. Sampled.' + TRUST,
      {'graph.c': {'collections': 5, 'op_descriptor': 5}, 'typed.c': {'collections': 5}, 'cxx.cc': {'collections': 20}, 'coll.c': {'ops_with_collection': 5}, 'foot.c': {'footprints': 1}, 'mt.c': {'barriers': 20}})
def c16(tier):
    cs = []
    for v in ALLV: cs.append(graph(v, 'ext', 'desc', 7)); cs.append(graph(v, 'ext', 'mixed', 4))
    for v in ('p15', 'gen5', 'ms', 'p13c10', 'msdebug'):
        cs.append(graph(v, 'ext', 'desc', 4, 'verify=1', 1200)); cs.append(graph(v, 'ext', 'store', 4))
        cs.append(graph(v, 'ext+jit', 'jit', 5)); cs.append(graph(v, 'ext+fin', 'fin', 5))
        cs.append(typed(v, 'ext', 3)); cs.append(cxx(v, 'ext', 2)); cs.append(coll(v, 'ext', 'profile=both ops=2000', 2)); cs.append(fit(v, 'ext', 1))
        cs.append(mt(v, 'ext', 'mixed', 1, 'threads=4 delay=4 ops=80'))
        for k in ('slots', 'drop1', 'arrays', 'window'): cs.append(foot(v, 'ext', k, 1, 'vol=60 live=10'))
    cs += grow('ext', 'desc', 1) + grow('ext', 'mixed', 1)
    return cs

@prop('C17', 'one run = one seed of a mutator that pushes and pops JIT stack slots (under no, internal or external tagging) on one build; non-trivial if 20 JIT operations and 5 collections; distinct by statistics',
      SHADOW, 'Every slot above the top is compared after collections, slots below hold stale junk that must not be followed. Sampled.' + TRUST,
      {'graph.c': {'collections': 5, 'op_jit_push': 20}, 'mt.c': {'jit_ops': 20, 'barriers': 15}})
def c17(tier):
    cs = []
    for v in ALLV: cs.append(graph(v, 'jit', 'jit', 6))
    for v in ('p15', 'gen5', 'ms', 'p13c10', 'msdebug'):
        cs.append(graph(v, 'jit', 'jit', 4, 'verify=1', 1200))
        for g in ('tag', 'ext', 'fin', 'tag+fin'): cs.append(graph(v, 'jit+' + g, 'jit', 5))
    for v in MT4:
        cs.append(mt(v, 'jit', 'mixed', 2, 'threads=4 delay=4 ops=80')); cs.append(mt(v, 'jit', 'block', 2, 'threads=5 delay=6 ops=60'))
        cs.append(mt(v, 'jit+ext', 'block', 2, 'threads=4 ops=60')); cs.append(mt(v, 'jit+tag', 'block', 2, 'threads=4 ops=60'))
    cs += grow('jit', 'jit', 2) + grow('jit+fin', 'jit', 1)
    return cs

TSANF = ' -fsanitize=thread'
def mtsan(var, fs, profile, n, extra):
    cc, fl = VARS[var]
    b = Build('mt.c', 'clang++' if '++' in cc else 'clang', (fl + ' ' + feats(*fs.split('+')) if fs else fl).strip() + TSANF, opt='-O1')
    return Cell(b, 'profile=%s %s' % (profile, extra), n, timeout=200)

@prop('C10', 'one run = one seed of a multi-threaded workload on a build with ThreadSanitizer; reports are filtered only for the polling of the stop request and the reuse of the released barrier; non-trivial if 10 collections and 200 objects; distinct by statistics and thread positions',
      'ThreadSanitizer over multi-threaded stress with injected delays', 'Races are found between accesses that a run makes, also if they did not collide in it. The harness synchronizes its objects with the library\'s own primitives only, so that nothing else orders the accesses.' + TRUST,
      {'mt.c': {'objects': 200, 'barriers': 30}})
def c10(tier):
    cs = []
    for v in ('p15', 'gen5', 'ms', 'gen1', 'debug', 'nognuc', 'malloc', 'dflt', 'genbar'):
        for p, x in (('mixed', 'threads=4 ops=60 delay=5'), ('first', 'threads=6 ops=20 delay=10'), ('churn', 'threads=4 rounds=5 delay=3'),
                     ('block', 'threads=4 ops=40 delay=5'), ('plain', 'threads=4 ops=60')):
            cs.append(mtsan(v, '', p, 2, x))
    for v in ('p20', 'ms20'): cs.append(mtsan(v, '', 'first', 2, 'threads=6 ops=20 delay=10'))
    for v in ('p15', 'gen5', 'ms'):
        for f in ('fin', 'jit', 'ext', 'tag'):
            cs.append(mtsan(v, f, 'mixed', 2, 'threads=4 ops=60 delay=5')); cs.append(mtsan(v, f, 'churn', 1, 'threads=4 rounds=4 delay=3'))
        cs.append(mtsan(v, '', 'recycle', 2 if v != 'ms' else 4, 'threads=4 rounds=40 delay=3'))
        cs.append(mtsan(v, '', 'types', 2, 'threads=4 rounds=6 delay=2'))
        cs.append(mtsan(v, '', 'results', 1, 'threads=4 rounds=2')); cs.append(mtsan(v, '', 'mixed', 1, 'threads=4 ops=60 failthread=5'))
    for v in ('debug', 'msdebug', 'gen1'): cs.append(mtsan(v, '', 'types', 1, 'threads=4 rounds=6'))
    return cs

ASANF = ' -fsanitize=address,undefined -fno-sanitize=null,object-size,function -fno-sanitize-recover=all -DVH_GUARD'
def sync(var, n, extra='', flags='', timeout=110):
    if not flags: return Cell(B('sync.c', var), extra, n, timeout=timeout)
    cc, fl = VARS[var]
    return Cell(Build('sync.c', 'clang', fl.strip() + flags, opt='-O1'), extra, n, timeout=200)
@prop('C22', 'one run = one seed of threads taking mutexes, permits and tokens, meeting at barriers that come and go, starting and joining threads, while objects move and collections happen, every operation recorded with tickets before and after it and judged afterwards; non-trivial if 20 operations really had to wait and 5 collections happened while somebody waited; distinct by statistics',
      'online owner and counter monitors and offline checking of recorded event intervals (exclusion, conservation, rendezvous, ordering), plus ThreadSanitizer and AddressSanitizer builds', 'The recorded intervals are judged exactly; schedules are sampled with injected delays.' + TRUST,
      {'sync.c': {'waits': 20, 'collections': 5, 'collections_while_waiting': 5}})
def c22(tier):
    cs = []
    for v in list(MTV) + ['gen3', 'gen9', 'lazy', 'c6']:
        cs.append(sync(v, 4, 'threads=4')); cs.append(sync(v, 3, 'threads=6 delay=8'))
        cs.append(sync(v, 2, 'threads=12 phases=6 ops=20 delay=3')); cs.append(sync(v, 2, 'threads=5 failthread=4'))
        cs.append(sync(v, 2, 'threads=3 phases=25 ops=4 delay=15')); cs.append(sync(v, 3, 'threads=4 delay=5 phases=8 signals=1'))
    cs.append(sync('nothr', 2)); cs.append(sync('sbrk', 2))
    for v in ('p15', 'ms', 'genbar', 'genbarms', 'gen5'):
        cs.append(sync(v, 3, 'threads=4', TSANF)); cs.append(sync(v, 2, 'threads=6 phases=10 ops=10 delay=5', TSANF))
        cs.append(sync(v, 2, 'threads=5 phases=10 ops=20 delay=5', ASANF))
    return cs

MSANF = ' -fsanitize=memory -fsanitize-memory-track-origins'
def san(h, kind, var, fs, args, n, cxx=None, **kw):
    cc, fl = VARS[var]
    b = Build(h, cxx or ('clang++' if '++' in cc else 'clang'), (fl + ' ' + feats(*fs.split('+')) if fs else fl).strip() + kind, opt='-O1', **kw)
    return Cell(b, args, n, timeout=200)

@prop('C21', 'one run = one seed of a workload of the other checks on a build with AddressSanitizer and UndefinedBehaviorSanitizer (pools surrounded by inaccessible memory) or with MemorySanitizer (pools start uninitialized); non-trivial if 3 collections; distinct by statistics and shapes',
      'AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer over the workloads of the other monitors',
      'Overruns inside a pool are not seen by the sanitizers (the shadow models see their effects). UBSan without null and object-size, because of the offsetof idiom the library uses.' + TRUST,
      {'graph.c': {'collections': 3}, 'mt.c': {'barriers': 9}, 'typed.c': {'collections': 3}, 'coll.c': {'ops_with_collection': 5}, 'foot.c': {'footprints': 1}, 'cxx.cc': {'collections': 3}, 'fit.c': {'allocations': 100}, 'over.c': {'oversized': 10}})
def c21(tier):
    cs = []
    for v in ('p15', 'p15cxx', 'gen5', 'ms', 'debug', 'gen1', 'p13c10', 'nognuc', 'msdebug', 'tiny', 'dflt', 'portc', 'c6', 'p12'):
        for p in ('mixed', 'desc', 'alloc', 'roots'): cs.append(san('graph.c', ASANF, v, '', 'profile=%s ops=2500' % p, 2))
    for v in ('p20', 'ms20'): cs.append(san('mt.c', ASANF, v, '', 'profile=first ops=40 threads=6', 2)); cs.append(san('graph.c', ASANF, v, '', 'profile=desc ops=2500', 1))
    for v in ('malloc', 'mmap', 'sbrk', 'port', 'nothr'):
        for p in ('mixed', 'alloc'): cs.append(san('graph.c', ASANF, v, '', 'profile=%s ops=2500' % p, 1))
    for v in ('p15', 'gen3', 'ms'):
        for f, p in (('fin', 'fin'), ('tag', 'tag'), ('ext', 'desc'), ('jit', 'jit'), ('jit+tag', 'jit'), ('jit+ext', 'jit')):
            cs.append(san('graph.c', ASANF, v, f, 'profile=%s ops=2500' % p, 2))
            if '+' not in f: cs.append(san('graph.c', MSANF, v, f, 'profile=%s ops=2500' % p, 1))
        for p in ('mixed', 'desc', 'alloc'): cs.append(san('graph.c', MSANF, v, '', 'profile=%s ops=2500' % p, 2))
        for f in ('', 'fin', 'tag', 'ext', 'jit'): cs.append(san('typed.c', ASANF, v, f, 'ops=2500', 1))
        cs.append(san('typed.c', MSANF, v, '', 'ops=2500', 1))
        for p in ('list', 'map', 'both'): cs.append(san('coll.c', ASANF, v, '', 'profile=%s ops=2000' % p, 1)); cs.append(san('coll.c', MSANF, v, '', 'profile=%s ops=2000' % p, 1))
        for k in ('near', 'half', 'arrays', 'descriptors', 'threads'): cs.append(san('foot.c', ASANF, v, '', 'kind=%s vol=40 calib=1' % k, 1))
        for p in ('mixed', 'churn', 'first', 'block', 'results', 'types'): cs.append(san('mt.c', ASANF, v, '', 'profile=%s ops=50 threads=4 rounds=4' % p, 1))
        cs.append(san('mt.c', MSANF, v, '', 'profile=mixed ops=50 threads=4', 1)); cs.append(san('mt.c', MSANF, v, 'jit', 'profile=churn rounds=4 threads=4', 1))
        cs.append(cxx(v, '', 2, cc='clang++', flags=ASANF)); cs.append(cxx(v, 'fin', 1, cc='clang++', flags=MSANF))
        cs.append(san('fit.c', ASANF, v, '', 'ops=40', 1))
        cs.append(san('over.c', ASANF, v, '', 'trials=50', 1))
    # the corners of the builds' parameters
    for v in ('p12', 'c6', 'c13', 'gen9', 'tiny'):
        for f, p in (('jit', 'jit'), ('tag', 'tag'), ('ext', 'desc'), ('fin', 'fin')): cs.append(san('graph.c', ASANF, v, f, 'profile=%s ops=2000' % p, 1))
        cs.append(san('mt.c', ASANF, v, '', 'profile=churn ops=50 threads=4 rounds=3', 1)); cs.append(san('mt.c', ASANF, v, '', 'profile=recycle threads=3 rounds=10', 1))
    for v in ('p12', 'gen3', 'ms'): cs.append(san('graph.c', ASANF, v, '', 'profile=mixed live=100 grow=1000 ops=2500', 1)); cs.append(san('graph.c', ASANF, v, 'fin', 'profile=fin live=40 grow=300 ops=2500', 1))
    return cs

def coll(var, fs, args, n, **kw):
    fs = fs.split('+') if fs else []
    return Cell(B('coll.c', var, *fs, **kw), args, n, timeout=110)
COLLV = ('p15', 'p15cxx', 'clang', 'gen1', 'gen3', 'gen5', 'p13c10', 'debug', 'ms', 'msdebug', 'nognuc', 'malloc', 'sbrk', 'p15O3', 'tiny', 'dflt', 'portc', 'msportc', 'c6')
def colls(profile, big):
    cs = []
    for v in COLLV:
        cs.append(coll(v, '', 'profile=%s ops=4000' % profile, 6))
        if v != 'sbrk': cs.append(coll(v, '', 'profile=%s ops=2500 bg=1' % profile, 4))
        cs.append(coll(v, '', 'profile=%s %s' % (profile, big), 3))
    for v in ('gen3', 'p15', 'ms'):
        for f in ('fin', 'tag', 'ext', 'jit'):
            cs.append(coll(v, f, 'profile=%s ops=3000' % profile, 2)); cs.append(coll(v, f, 'profile=both ops=2000 bg=1 delay=10', 2))
        cs.append(san('coll.c', ASANF, v, '', 'profile=%s ops=3000' % profile, 2))
    return cs

@prop('C18', 'one run = one seed of random list operations on several lists (empty ones, nulls, nodes held for long) compared with sequences, with collections inside operations, on one build; non-trivial if 50 lists were compared and 50 operations saw a collection; distinct by statistics and sequences seen',
      'reference-model monitor (sequences) over random list histories with collections inside operations', 'Lengths, orders, identities and results are compared. Sampled.' + TRUST,
      {'coll.c': {'lists_compared': 50, 'ops_with_collection': 20}})
def c18(tier): return colls('list', 'ops=6000 maxlen=1500')

@prop('C19', 'one run = one seed of random map operations (6 hash functions from constant to good, hash functions that allocate, clones, growth) compared with dictionaries, with collections inside operations, on one build; non-trivial if 5 maps were compared key by key and 20 operations saw a collection; distinct by statistics and key sets seen',
      'reference-model monitor (dictionaries) over random map histories with collections inside operations', 'Every key of the key space is looked up at each comparison. Null keys are not used. Sampled.' + TRUST,
      {'coll.c': {'maps_compared': 5, 'ops_with_collection': 20}})
def c19(tier): return colls('map', 'ops=8000 keys=4000 hash=5')

def cxx(var, fs, n, args='', hflags='', cc='g++', hcc=None, flags=''):
    fl = VARS[var][1]
    return Cell(Build('cxx.cc', cc, (fl + ' ' + feats(*(fs.split('+') if fs else [])) + flags).strip(), hcc=hcc or ('g++' if cc == 'gcc' else 'clang++' if cc == 'clang' else cc), hflags=hflags), args, n, timeout=110)

@prop('C07', 'one run = one seed of a C++ program of nested frames (blocks, loops, parameters by value and by reference, returns, structures and arrays of wrappers, exceptions) with wrappers of all kinds, stores through proxies, wrappers and C macros, and collections anywhere, on one build; non-trivial if 20 collections were compared and 10 wrappers were returned by value; distinct by statistics',
      'shadow-model runtime monitor over randomized C++ wrapper programs', 'Every wrapper in scope is compared after every collection, and proxies are compared with the C macros. That wrappers stop being roots is seen in finalizer builds. Sampled.' + TRUST,
      {'cxx.cc': {'collections': 20, 'returns': 10}})
def c07(tier):
    cs = []
    for v in ('p15', 'p13c10', 'gen1', 'gen3', 'gen5', 'debug', 'ms', 'msdebug', 'tiny', 'nothr', 'lazy', 'malloc', 'big', 'dflt', 'c6', 'gen9'):
        cs.append(cxx(v, '', 6)); cs.append(cxx(v, 'fin', 4)); cs.append(cxx(v, '', 2, 'depth=12 rounds=30'))
        cs.append(cxx(v, '', 2, cc='gcc'))
    for v in ('p15', 'gen5', 'gen3', 'ms', 'p13c10'):
        for f in ('tag', 'ext', 'jit', 'fin+tag', 'fin+ext', 'fin+jit'): cs.append(cxx(v, f, 3))
        cs.append(cxx(v, 'fin', 4, cc='clang++')); cs.append(cxx(v, 'fin', 3, cc='clang'))
        for h in ('-std=c++11 -fno-elide-constructors', '-std=c++17 -O3', '-std=c++20 -O2', '-std=c++17 -O0'): cs.append(cxx(v, 'fin', 3, hflags=h))
        cs.append(cxx(v, '', 3, cc='clang++', flags=ASANF)); cs.append(cxx(v, 'fin', 2, cc='clang++', flags=MSANF))
    return cs

def faulty(h, var, fs, args, n, fault='enum', points=24, timeout=110, **kw):
    return Cell(B(h, var, *(fs.split('+') if fs else []), **kw), args, n, N=n * 12, timeout=timeout, fault=fault, points=points)
KINDS = 'young cycles drop0 drop1 drop2 drop3 age queue window slots near half arrays parrays descriptors frames list map medium'.split()
# pools allowed: per pool of live data, plus a base, and growth after warming up
BOUND = {'gen5': 'per=90 base=450 grow=5 slack=60', 'gen3': 'per=20 base=60 grow=4 slack=40', 'gen1': 'per=5 base=20', 'ms': 'per=5 base=20', 'msdebug': 'per=5 base=20', 'port': 'per=5 base=20',
         'gen9': 'per=200 base=900 grow=5 slack=60', 'portc': 'per=20 base=60 grow=4 slack=40', 'c6': 'per=20 base=60 grow=4 slack=40', 'p12': 'per=45 base=200 grow=5 slack=50', 'msportc': 'per=5 base=20'}
def foot(var, fs, kind, n, extra):
    fs = fs.split('+') if fs else []
    return Cell(B('foot.c', var, *fs), 'kind=%s %s %s' % (kind, BOUND.get(var, 'per=11 base=35'), extra), n, timeout=110)

def survive(r):
    if r.rc == 0 and r.stats: return None
    if r.rc == -6 and r.refused: return ('gave-up', 'the program ended although its live data fits well in the memory it has: ' + r.err.strip()[:200])
    return ('died', 'ended with status %d after %d refusals: %s' % (r.rc, r.refused, r.err.strip()[-200:]))
# how many requests for memory are granted: about twice what is needed today
QUOTA = {'gen5': 40, 'gen3': 14, 'gen1': 9, 'ms': 10, 'msdebug': 10, 'port': 10}

@prop('C14', 'one run = either one seed of a workload of the other monitors, repeated under 20 to 50 fault plans (single requests for memory refused, all from one on, a few, at random, with and without the small allocations of the library), or one program whose live data fits in the memory it may have, with all further requests refused for most of the run; non-trivial if 5 fault plans ran or refusals happened; distinct by statistics',
      'fault-injecting interposer (every request for memory is numbered) under the shadow-model and footprint monitors',
      'Allowed ends: everything intact, or a diagnostic after a refusal. A program with a quota of pools of about twice what it needs today has to survive, and to recover when the quota is lifted. Points of refusal are enumerated for short runs, sampled otherwise.' + TRUST,
      {'graph.c': {'fault_runs': 5}, 'mt.c': {'fault_runs': 5}, 'typed.c': {'fault_runs': 5}, 'coll.c': {'fault_runs': 5}, 'cxx.cc': {'fault_runs': 5}, 'foot.c': {'refused': 1}})
def c14(tier):
    cs = []
    for v in ALLV:
        for p in ('mixed', 'alloc', 'store'): cs.append(faulty('graph.c', v, '', 'profile=%s ops=2500' % p, 1))
        cs.append(faulty('graph.c', v, '', 'profile=mixed ops=4000 live=20', 1, points=40))
        cs.append(faulty('graph.c', v, '', 'profile=desc ops=2000', 1, 'enumall'))
        cs.append(faulty('graph.c', v, '', 'profile=roots ops=1500', 1, 'enumall'))
        cs.append(faulty('typed.c', v, '', 'ops=1500', 1, 'enumall', 12))
        if v != 'lazy': cs.append(faulty('coll.c', v, '', 'profile=both ops=1500', 1, points=12))
    for v in ('p15', 'gen5', 'gen3', 'ms'):
        for f in ('fin', 'tag', 'ext', 'jit'):
            cs.append(faulty('graph.c', v, f, 'profile=%s ops=2500' % dict(fin='fin', tag='tag', ext='desc', jit='jit')[f], 1))
            cs.append(faulty('graph.c', v, f, 'profile=mixed ops=1500', 1, 'enumall'))
        for x in ('profile=mixed threads=4 ops=60', 'profile=churn threads=4 rounds=5', 'profile=first threads=6 ops=20'):
            cs.append(faulty('mt.c', v, '', x, 1, points=10)); cs.append(faulty('mt.c', v, '', x, 1, 'enumall', points=10))
        c = cxx(v, 'fin', 1, 'rounds=25'); c.fault = 'enumall'; c.points = 12; cs.append(c)
        for x in ('graph.c', 'profile=desc ops=1500'), ('mt.c', 'profile=churn threads=4 rounds=3'), ('coll.c', 'profile=both ops=1500'):
            c = san(x[0], ASANF, v, '', x[1], 1); c.fault = 'enumall'; c.points = 8; cs.append(c)
    for v in ('p15', 'p13c10', 'gen5', 'gen3', 'gen1', 'ms', 'debug', 'mmap', 'port', 'sbrk'):
        for k in KINDS:
            q = QUOTA.get(v, 10)
            for l in (40, 5):
                c = foot(v, '', k, 1, 'vol=40 rounds=6 live=%d' % l); c.fault = '%d:%d:0:0:1' % (q, 1 << 40); c.expect = survive; cs.append(c)
    for v in ('p12', 'gen3', 'ms', 'p13c10', 'gen5'): cs.append(faulty('graph.c', v, '', 'profile=mixed live=60 grow=1000 ops=1500', 1, 'enum')); cs.append(faulty('graph.c', v, 'fin', 'profile=fin live=30 grow=400 ops=1500', 1, 'enumall'))
    return cs

@prop('C03', 'one run = one seed of a program with bounded live data that allocates thousands of pools\' worth of one kind of garbage on one build; non-trivial if at least 300 pools\' worth was allocated; distinct by volume and pools obtained',
      'footprint monitor: pools obtained from the system (interposed) against live data, during long garbage-producing runs', 'The bound has a margin of about two over what the collector needs today, and the growth bound compares the last nine tenths of the run with the first. Sampled kinds of garbage.' + TRUST,
      {'foot.c': {'pools_allocated_in_volume': 300}})
def c03(tier):
    cs = []
    for v in ('p15', 'p13c10', 'gen5', 'gen3', 'gen1', 'ms', 'debug', 'msdebug', 'malloc', 'port', 'p15cxx', 'sbrk', 'portc', 'p12', 'c6'):
        main = v in ('p15', 'gen5', 'gen3', 'ms', 'gen1')
        for k in KINDS:
            vol = 120
            cs.append(foot(v, '', k, 1, 'vol=%d live=5' % vol))
            if main: cs.append(foot(v, '', k, 1, 'vol=300 live=60'))
        if v != 'sbrk':
            for k in ('threads', 'mtlong'): cs.append(foot(v, '', k, 2 if main else 1, 'vol=%d live=10' % (600 if main else 200)))
        if main:
            for k in ('finalizers', 'drop2', 'slots', 'threads'): cs.append(foot(v, 'fin', k, 1, 'vol=200 live=10'))
            for f in ('tag', 'ext', 'jit'):
                for k in ('slots', 'drop1', 'descriptors', 'arrays'): cs.append(foot(v, f, k, 1, 'vol=200 live=10'))
    return cs

@prop('C20', 'one run = either one seed of programs of which most overwrite the guard word of one live object (of any kind, age and holder, with any value) and then collect explicitly or by allocating, each in a process of its own, or one seed of a workload of the other monitors on a debugging build; non-trivial if 10 damages were detected, or a correct program with 5 collections ended; distinct by statistics and trials',
      'fault injection (guard words of live objects) with a detection oracle, and silence of the checker over the workloads of the other monitors',
      'Damage elsewhere than in guard words is not claimed to be found. Sampled.' + TRUST,
      {'corrupt.c': {'damage_detected': 10}, 'graph.c': {'collections': 5}, 'mt.c': {'barriers': 9}, 'typed.c': {'collections': 3}, 'coll.c': {'ops_with_collection': 5}, 'foot.c': {'footprints': 1}, 'cxx.cc': {'collections': 3}})
def c20(tier):
    cs = []
    DBG = D('DEBUG_MEMORY_CORRUPTION')
    dv = {'debug': None, 'msdebug': None, 'alldbg': None, 'msalldbg': None}
    for v, x in (('gen1', 'debuggen1'), ('gen5', 'debuggen5'), ('gen3', 'debuggen3'), ('p13c10', 'debugp13'), ('malloc', 'debugmalloc'), ('sbrk', 'debugsbrk'), ('clang', 'debugclang'), ('port', 'debugport'), ('p12', 'debugp12'), ('portc', 'debugportc'), ('dflt', 'debugdflt')):
        VARS[x] = (VARS[v][0], VARS[v][1] + ' ' + DBG); dv[x] = v
    def dbg(h, v, fs, args, n, **kw): return Cell(B(h, v, *(fs.split('+') if fs else []), **kw), args, n, timeout=110)
    for v in dv:
        cs.append(dbg('corrupt.c', v, '', 'trials=40', 3))
        for p in ('mixed', 'store', 'alloc', 'desc', 'roots'): cs.append(dbg('graph.c', v, '', 'profile=%s ops=4000' % p, 3))
        if 'sbrk' not in v:
            for x in ('profile=mixed threads=4 ops=80 delay=3', 'profile=churn threads=4 rounds=8', 'profile=block threads=5 delay=6 ops=60'): cs.append(dbg('mt.c', v, '', x, 1))
            cs.append(dbg('mt.c', v, '', 'profile=first threads=6 ops=30 delay=5', 1)); cs.append(dbg('mt.c', v, '', 'profile=types threads=4 rounds=8', 1))
        cs.append(dbg('coll.c', v, '', 'profile=both ops=3000', 1)); cs.append(dbg('typed.c', v, '', 'ops=3000', 2))
        for f in ('fin', 'tag', 'ext', 'jit', 'fin+tag', 'jit+tag', 'jit+ext'):
            cs.append(dbg('corrupt.c', v, f, 'trials=30', 1))
            cs.append(dbg('graph.c', v, f, 'profile=%s ops=3000' % ('jit' if 'jit' in f else 'fin' if 'fin' in f else 'mixed'), 2))
            if v in ('debug', 'msdebug', 'debuggen5'): cs.append(dbg('mt.c', v, f, 'profile=mixed threads=4 ops=60', 1))
    for v in ('debug', 'msdebug', 'debuggen5'):
        cs.append(cxx(v, 'fin', 3))
        for k in KINDS: cs.append(foot(v, '', k, 1, 'vol=40 live=20 calib=1'))
        cs.append(dbg('fit.c', v, '', 'ops=60', 1))
        cs += [dbg('graph.c', v, f, 'profile=%s ops=4000 live=60 grow=800' % q, 1) for f, q in (('', 'mixed'), ('fin', 'fin'), ('ext', 'desc'), ('tag', 'tag'))]
    return cs
