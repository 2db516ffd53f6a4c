#!/usr/bin/env python3
"""Runs the check of one property.

  check.py ID              VERIF_TIER=quick|thorough, VERIF_SEED=n
  check.py --replay FILE   rebuilds and repeats one reported run
  check.py --setup         builds nothing that is kept; tries the tools

Every check is a list of cells. A cell is one build of the library (compiler,
flags) together with one harness and its arguments, and is run with a number of
seeds. The library is compiled from /repo's working tree. Builds are kept in
/verif/build under a hash of everything that went into them."""
import shutil
import sys, os, json, random, hashlib, subprocess, time, re, shlex, resource, signal, threading
from concurrent.futures import ThreadPoolExecutor, wait, FIRST_COMPLETED

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
REPLAY = os.path.join(V, 'replay')
CPUS = len(os.sched_getaffinity(0))
LIBS = ['allocator', 'collector/gembc', 'collector/portablems', 'globals', 'roots', 'threads',
        'collections/list', 'collections/map']
def libs():
    """the files the library consists of, as the Makefile has it"""
    try:
        m = re.search(r'^OBJS\s*=((?:.*\\\n)*.*)', open(os.path.join(REPO, 'Makefile')).read(), re.M)
        fs = [x[:-2] for x in m.group(1).replace('\\', ' ').split() if x.endswith('.o')]
        if fs and all(os.path.exists(os.path.join(REPO, f + '.c')) for f in fs): return fs
    except (OSError, AttributeError): pass
    return LIBS
WRAP = '-Wl,' + ','.join('--wrap=' + f for f in (
    'posix_memalign malloc mmap sbrk pthread_barrier_wait pthread_mutex_lock '
    'pthread_mutex_trylock pthread_mutex_unlock pthread_create sem_wait sem_post ggc_barrier_wait_raw').split())
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4',
}

class Broken(Exception):
    """the check itself does not work"""

# ---------------------------------------------------------------- building
def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if not x.startswith('.') and x not in ('tests', '_build')]
        out += [os.path.join(d, f) for f in fs if f.endswith(('.c', '.h', '.cc', '.hpp'))]
    return sorted(out)

_hash = None
def tree_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in repo_files() + sorted(os.path.join(V, 'harness', x) for x in os.listdir(os.path.join(V, 'harness'))):
            h.update(f.encode()); h.update(open(f, 'rb').read())
        _hash = h.hexdigest()
    return _hash

class Build:
    """cc: gcc, g++, clang, clang++. The library is compiled as whatever cc
    compiles .c files as, like the repository's own tests do. hcc, if given, is
    the compiler of the harness."""
    def __init__(self, harness, cc='gcc', flags='', opt='-O2', hcc=None, hopt='-O1', lib=None, hflags=''):
        self.harness, self.cc, self.flags, self.opt = harness, cc, flags, opt
        self.hcc, self.hopt, self.hflags = hcc or cc, hopt, hflags
    def key(self):
        return '|'.join([self.harness, self.cc, self.flags, self.opt, self.hcc, self.hopt, self.hflags])
    def name(self):
        return self.harness.split('.')[0] + '-' + hashlib.sha256((tree_hash() + self.key()).encode()).hexdigest()[:16]
    def path(self): return os.path.join(BUILD, self.name())
    def label(self):
        return (self.cc + ' ' + self.opt + ' ' + self.flags.replace('-DGGGGC_', '').replace('FEATURE_', '')).strip()
    def libname(self):
        """the compiled library, shared by the harnesses of one check"""
        return 'lib-' + hashlib.sha256((tree_hash() + '|'.join([self.cc, self.flags, self.opt])).encode()).hexdigest()[:16]
    def libpath(self): return os.path.join(BUILD, self.libname())
    def libcommands(self, d):
        base = '-D_XOPEN_SOURCE=600 -I%s -g -w' % REPO
        cs = ['%s %s %s %s -c %s/%s.c -o %s/%s.o' % (self.cc, base, self.opt, self.flags, REPO, f, d, f.replace('/', '_')) for f in libs()]
        ccc = 'clang' if self.cc.startswith('clang') else 'gcc'
        cs.append('%s -g -w -O2 %s -c %s/harness/vh.c -o %s/vh.o' % (ccc, re.sub(r'-fsanitize=\S+', '', self.flags), V, d))
        return cs
    def command(self):
        cxx = self.hcc if '++' in self.hcc else self.cc
        # the sanitizers are to be linked, the harness decides on the language
        return '%s -I%s -I%s/harness -g -w %s %s %s -c %s/harness/%s -o %s.o && ' % (self.hcc, REPO, V, self.hopt, self.flags, self.hflags, V, self.harness, self.path()) + \
            '%s %s %s %s.o %s/*.o -o %s.tmp %s -lpthread && rm -f %s.o && mv %s.tmp %s' % (cxx, self.opt, self.flags, self.path(), self.libpath(), self.path(), WRAP, self.path(), self.path(), self.path())

def sh(cmd):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout

def build_all(builds, pool):
    bad, todo, ls = {}, {}, {}
    for b in builds:
        if not os.path.exists(b.path()): todo[b.name()] = b; ls.setdefault(b.libname(), b)
    jobs = []
    for b in ls.values():
        if os.path.isdir(b.libpath()): continue
        d = b.libpath() + '.d.%d' % os.getpid()
        os.makedirs(d, exist_ok=True)
        jobs.append((b, d, [(c, pool.submit(sh, c)) for c in b.libcommands(d)]))
    badlib = {}
    for b, d, fs in jobs:
        for c, f in fs:
            rc, out = f.result()
            if rc: badlib.setdefault(b.libname(), 'cannot compile [%s]: %s\n%s' % (b.label(), c, out[-3000:]))
        if b.libname() not in badlib:
            try: os.rename(d, b.libpath())
            except OSError: pass
    links = [(b, pool.submit(sh, b.command())) for b in todo.values() if b.libname() not in badlib]
    for b in todo.values():
        if b.libname() in badlib: bad[b.key()] = badlib[b.libname()]
    for b, f in links:
        rc, out = f.result()
        if rc: bad[b.key()] = 'cannot build [%s]: %s\n%s' % (b.label(), b.command(), out[-3000:])
    # a configuration that does not compile cannot be judged; the others can
    for m in bad.values(): print('NOT-BUILT: ' + m, file=sys.stderr)
    if bad and len(bad) * 2 >= len(builds): raise Broken(list(bad.values())[0])
    return set(bad)

def clean_builds():
    """keep the build folder from growing without end"""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        for f in fs:
            if os.path.isdir(f) and time.time() - os.path.getmtime(f) > 3600: shutil.rmtree(f, ignore_errors=True)
        fs = [(os.path.getmtime(f), f) for f in fs if os.path.isfile(f)]
        if len(fs) > 400:
            for _, f in sorted(fs)[:len(fs) - 250]: os.remove(f)
    except OSError: pass

# ---------------------------------------------------------------- running
class Cell:
    """n seeds in a quick run, N in a thorough one. expect: None, or a function
    of a Result that gives a violation (key, message) or None."""
    def __init__(self, build, args='', n=3, N=None, timeout=60, expect=None, mem=6, fault=None, points=24):
        self.build, self.args, self.n, self.N = build, args, n, N if N is not None else n * 25
        self.timeout, self.expect, self.mem = timeout, expect, mem
        # fault: None; a VH_FAIL string; 'enum' (refuse single requests for memory,
        # all from one on, a few, every other, each at points spread over the run),
        # 'enumall' (the library's small allocations as well)
        self.fault, self.points = fault, points
    def label(self):
        return '%s %s [%s]' % (self.build.harness, self.args, self.build.label())

class Result: pass

def limits(mem, san):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (600, 600))
        if not san: resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    return f

def run_one(cell, seed, mult=1):
    if cell.fault and cell.fault.startswith('enum'): return run_enum(cell, seed, mult)
    return run_plain(cell, seed, mult, cell.fault)

def run_enum(cell, seed, mult):
    """first without faults, to know how many requests there are; then with"""
    al = 1 if cell.fault == 'enumall' else 0
    base = run_plain(cell, seed, mult, '-1:0:0:%d:1' % al)
    if verdict(base): return base
    n = base.stats.get('requests', 0)
    rnd = random.Random(seed * 31 + 7)
    plan = []
    step = max(1, -(-n * 2 // cell.points))
    for i in range(rnd.randrange(step), n, step):
        plan.append((i, i + 1)); plan.append((i, 1 << 40))
    for _ in range(cell.points // 3):
        i = rnd.randrange(n + 1); plan.append((i, i + rnd.choice((2, 3, 5, 10, 40))))
    plan = ['%d:%d:0:%d:1' % (a, b, al) for a, b in plan] + ['-1:0:%d:%d:%d' % (p, al, rnd.randrange(1, 1 << 30)) for p in (3, 10, 30, 60, 90)]
    tot = base
    tot.stats = {'fault_runs': 0, 'fault_survived': 0, 'diagnostic_aborts': 0, 'refused_requests': 0, 'collections': base.stats.get('collections', 0), 'requests_without_faults': n}
    dist = set()
    for f in plan:
        r = run_plain(cell, seed, mult, f)
        v = verdict(r)
        if v: return r
        tot.stats['fault_runs'] += 1
        if r.stats:
            if r.stats.get('refused', 0): tot.stats['fault_survived'] += 1
            tot.stats['refused_requests'] += r.stats.get('refused', 0)
        else: tot.stats['diagnostic_aborts'] += 1; tot.stats['refused_requests'] += r.refused
        dist.add(hashlib.sha256((f + str(r.stats) + r.err).encode()).hexdigest()[:10])
        tot.wall += r.wall
    tot.dist = {'faulted_runs': list(dist)}
    tot.samples = ['%s: %d requests for memory; %d fault plans: %d survived, %d ended with a diagnostic' % (base.cmd, n, tot.stats['fault_runs'], tot.stats['fault_survived'], tot.stats['diagnostic_aborts'])]
    tot.enum = True
    return tot

def run_plain(cell, seed, mult, fault):
    r = Result()
    r.fault, r.enum = fault, False
    r.cell, r.seed = cell, seed
    san = '-fsanitize' in cell.build.flags
    env = dict(os.environ); env.update(SAN_ENV)
    env.pop('VH_FAIL', None)
    if fault: env['VH_FAIL'] = fault
    args = cell.args if 'wd=' in cell.args or mult == 1 else cell.args + ' wd=%d' % (25 * mult)
    cmd = [cell.build.path(), 'seed=%d' % seed] + args.split()
    r.cmd = ('VH_FAIL=%s ' % fault if fault else '') + 'seed=%d %s' % (seed, args)
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                         env=env, preexec_fn=limits(cell.mem, san), stdin=subprocess.DEVNULL)
    try:
        r.out, r.err = p.communicate(timeout=cell.timeout * mult)
        r.timeout = False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc, r.wall = p.returncode, time.time() - t0
    r.stats, r.dist, r.samples = {}, {}, []
    m = re.search(r'VH-ABORT refused=(\d+)', r.err)
    r.refused = int(m.group(1)) if m else 0
    for l in r.out.splitlines():
        if l.startswith('VH-STATS '):
            try: r.stats = json.loads(l[9:])
            except ValueError: pass
        elif l.startswith('VH-DIST '):
            w = l.split(); r.dist[w[1]] = w[2:]
        elif l.startswith('VH-SAMPLE '): r.samples.append(l[10:])
    return r

def verdict(r):
    """(key, message) of a violation; 'hang' if that is to be confirmed; None"""
    if r.enum: return None
    if r.timeout: return ('hang', 'did not end within the time limit')
    m = re.search(r'VH-VIOLATION ([\w-]+): (.*)', r.err)
    if m:
        return (m.group(1), m.group(2))
    if r.rc == 11 or 'VH-BUG' in r.err:
        m = re.search(r'VH-BUG (.*)', r.err)
        if m and 'out of memory' in m.group(1) and '-fsanitize' not in r.cell.build.flags:
            return ('memory-exhausted', 'used %d GB of address space' % r.cell.mem)
        raise Broken('harness: %s: %s' % (r.cell.label(), r.err[-500:]))
    if '-fsanitize=thread' in r.cell.build.flags:
        v = races(r)
        if v: return v
        if r.rc == 66 and r.stats: return None
    m = re.search(r'(==\d+==ERROR: \w+Sanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*)', r.err)
    if m:
        return ('sanitizer', re.sub(r'==\d+==|0x[0-9a-f]+|\(pid=\d+\)', '', m.group(1))[:200] + top_frames(r.err))
    if r.cell.expect: return r.cell.expect(r)
    if r.fault and r.refused and diagnosed(r): return None
    if r.rc < 0:
        try: n = signal.Signals(-r.rc).name
        except ValueError: n = str(-r.rc)
        return ('crash', 'ended by %s%s' % (n, ': ' + r.err.strip()[-200:] if r.err.strip() else ''))
    if r.rc: return ('abort', 'ended with status %d: %s' % (r.rc, r.err.strip()[-300:]))
    if 'stats' not in r.__dict__ or not r.stats: return ('abort', 'ended early with status 0: %s' % r.err.strip()[-200:])
    return None

def diagnosed(r):
    """refused memory may end the program, if it says so"""
    t = re.sub(r'VH-\w+ .*', '', r.err).strip()
    if re.search(r'corrupt|free\(\)|malloc\(\)|realloc\(\)|munmap_chunk|[Aa]ssert|smashing|overflow', t): return False
    return (r.rc == -signal.SIGABRT or r.rc > 0) and bool(re.search(r'memory|alloc|memalign|mmap|sbrk|ENOMEM', t, re.I))

def races(r):
    """the first report of ThreadSanitizer that is not one of the three intended:
    the polling of the stop request, the reuse of the pthread barrier's memory (which
    pthread_barrier_destroy and glibc allow once the last wait was released), and two
    writes of program code that mark the same card of a pool as holding old objects"""
    n = 0
    def bits(what, default):
        m = re.search(r'GGGGC_%s=(\d+)' % what, r.cell.build.flags)
        return int(m.group(1)) if m else default
    pool = 1 << bits('POOL_SIZE', 24); cards = pool >> bits('CARD_SIZE', 12)
    for rep in r.err.split('=================='):
        m = re.search(r'WARNING: ThreadSanitizer: (.*?) \(pid', rep)
        if not m: continue
        n += 1
        g = re.search(r"Location is global '([^']+)'", rep)
        tops = re.findall(r'#0 (\w+)', rep)[:2]
        if m.group(1) == 'data race' and g:
            if g.group(1) == 'ggggc_stopTheWorld': continue
            if g.group(1) == 'ggggc_worldBarrier' and 'pthread_barrier_wait' in tops: continue
        if m.group(1) == 'data race' and not g:
            # old-object marks are the bytes at the start of a pool
            acc = re.findall(r'([Ww]rite) of size 1 at 0x([0-9a-f]+) by ', rep)
            by = [x.split(':')[0] for x in re.findall(r'#0 \w+ ([^ ]*)', rep)[:2]]
            if len(acc) == 2 and len(by) == 2 and all(int(a[1], 16) % pool < cards for a in acc) \
               and not any(re.search(r'(/collector/[^/]*|/allocator|/threads|/roots|/globals)\.c$', x) for x in by): continue
        r.err = rep
        return ('data-race', '%s on %s between %s' % (m.group(1), g.group(1) if g else 'heap or stack memory', ' and '.join(
            re.sub(r'.*/', '', x) for x in re.findall(r'#0 (\w+ [^ ]*)', rep)[:2])))
    r.stats['benign_race_reports'] = n
    return None

def top_frames(err):
    fs = re.findall(r'#\d+ (?:0x[0-9a-f]+ in )?(\w+)', err)
    fs = [f for f in fs if not f.startswith('__') and f not in ('main', 'memset', 'memcpy', 'clone3', 'start_thread')][:3]
    return ' at ' + ' < '.join(fs) if fs else ''

# ---------------------------------------------------------------- findings
def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(V, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', l.strip())
            if m and m.group(1) == pid: out.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError: pass
    return out

def write_replay(pid, r, key, msg):
    os.makedirs(REPLAY, exist_ok=True)
    b = r.cell.build
    f = os.path.join(REPLAY, '%s-%s.json' % (pid, hashlib.sha256((b.key() + r.cmd).encode()).hexdigest()[:10]))
    json.dump({'property': pid, 'key': key, 'message': msg, 'harness': b.harness, 'cc': b.cc, 'flags': b.flags, 'opt': b.opt,
               'hcc': b.hcc, 'hopt': b.hopt, 'hflags': b.hflags, 'args': r.cell.args, 'seed': r.seed, 'fault': r.fault,
               'how': 'python3 check.py --replay <this file>', 'stderr': r.err[-6000:]}, open(f, 'w'), indent=1)
    return f

def replay(f):
    j = json.load(open(f))
    b = Build(j['harness'], j['cc'], j['flags'], j['opt'], j['hcc'], j['hopt'], hflags=j.get('hflags', ''))
    with ThreadPoolExecutor(CPUS) as pool:
        os.makedirs(BUILD, exist_ok=True)
        build_all([b], pool)
    import props
    exp = None
    for pid in [j['property']]:
        for c in props.cells(pid, 'quick'):
            if c.build.key() == b.key() and c.args == j['args']: exp = c.expect
    c = Cell(b, j['args'], expect=exp, fault=j.get('fault'))
    for k in range(10):
        r = run_one(c, j['seed'])
        v = verdict(r)
        print('run %d: %s' % (k + 1, v or 'no violation'))
        if v: print(r.err[-3000:]); return 1
    return 0

# ---------------------------------------------------------------- the check
def check(pid):
    import props
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    spec = props.PROPS[pid]
    cells = props.cells(pid, tier)
    if os.environ.get('VERIF_SAMPLE'): # development: only some of the cells
        rnd = random.Random(int(os.environ['VERIF_SAMPLE'].split(':')[1])); k = int(os.environ['VERIF_SAMPLE'].split(':')[0])
        cells = [c for c in cells if rnd.randrange(k) == 0] or cells[:1]
        for c in cells: c.n = min(c.n, 3)
    builds, seen = [], set()
    for c in cells:
        if c.build.name() not in seen: seen.add(c.build.name()); builds.append(c.build)
    known = known_findings(pid)
    budget = 780 if tier == 'quick' else 3300
    found, knownHits, hangs = [], {}, []
    stop = threading.Event()
    agg, dist, sigs, samples, evaluations, nontrivial = {}, {}, set(), [], 0, 0
    perCell = {}
    with ThreadPoolExecutor(CPUS) as pool:
        bad = build_all(builds, pool)
        cells = [c for c in cells if c.build.key() not in bad]
        tb = time.time()
        # interleave: the k-th seed of every cell before the k+1-th of any
        plan = []
        mx = max((c.n if tier == 'quick' else c.N) for c in cells)
        for k in range(mx):
            for i, c in enumerate(cells):
                if k < (c.n if tier == 'quick' else c.N):
                    plan.append((c, (seed * 7919 + k * 131 + i * 17) % 1000003 + 1))
        it = iter(plan); pending = set(); skipped = 0
        def launch():
            for c, s in it:
                if time.time() - t0 > budget: return False
                pending.add(pool.submit(run_one, c, s)); return True
            return False
        for _ in range(CPUS): launch()
        while pending:
            done, pending_ = wait(pending, return_when=FIRST_COMPLETED)
            pending.clear(); pending.update(pending_)
            for f in done:
                r = f.result()
                evaluations += 1
                perCell[r.cell] = perCell.get(r.cell, 0) + 1
                v = verdict(r)
                if v:
                    line = '%s|%s|%s' % (v[0], r.cell.label(), v[1])
                    k = next((w for rx, w in known if rx.search(line)), None)
                    if k: knownHits[k] = knownHits.get(k, 0) + 1
                    elif v[0] in ('hang', 'no-progress'): hangs.append((r, v))
                    else: found.append((r, v))
                else:
                    sig = hashlib.sha256((r.cell.label() + json.dumps(r.stats, sort_keys=True) + json.dumps(r.dist, sort_keys=True)).encode()).hexdigest()
                    if all(r.stats.get(a, 0) >= m for a, m in spec['needs'].get(r.cell.build.harness, {}).items()):
                        if sig not in sigs:
                            sigs.add(sig); nontrivial += 1
                            if len(samples) < 6: samples += ['%s | %s' % (r.cell.label(), s) for s in r.samples[:1]]
                    for a, x in r.stats.items():
                        if a.startswith('distinct_'): continue
                        agg[a] = max(agg.get(a, 0), x) if a.startswith('max_') else agg.get(a, 0) + x
                    for a, hs in r.dist.items(): dist.setdefault(a, set()).update(hs)
                if not found and len(hangs) < 3: launch()
    # something that took too long is repeated, alone and with more time
    inconclusive = 0
    if hangs and not found:
        r, v = hangs[0]
        with ThreadPoolExecutor(3) as pool:
            again = list(pool.map(lambda k: run_one(r.cell, r.seed, 2), range(3)))
        bad = [(q, verdict(q)) for q in again if verdict(q)]
        if bad: found.append((bad[0][0], bad[0][1]))
        elif len(hangs) >= 3: found.append((r, v))
        else: inconclusive = len(hangs)
    clean_builds()
    cov = {
        'evaluations': evaluations, 'distinct_nontrivial': nontrivial, 'rule': spec['rule'],
        'samples': samples or ['none'],
        'builds': [b.label() for b in builds], 'builds_that_do_not_compile': len(bad), 'cells': len(cells), 'planned_runs': len(plan),
        'observed': {a: agg[a] for a in sorted(agg)},
        'distinct_seen': {a: len(h) for a, h in sorted(dist.items())},
        'inconclusive_timeouts': inconclusive,
        'violations': len(found), 'known_findings_seen': knownHits,
        'build_s': round(tb - t0, 1),
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov,
               'wall_s': round(time.time() - t0, 1)}, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for rx, w in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if found:
        r, v = found[0]
        f = write_replay(pid, r, v[0], v[1])
        print('%s: %s' % v); print('in %s %s' % (r.cell.label(), r.cmd))
        print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    if nontrivial == 0: raise Broken('nothing of interest was observed in %d runs' % evaluations)
    print('%s: held in %d runs (%d distinct and non-trivial), %d builds, %.0f s' % (pid, evaluations, nontrivial, len(builds), time.time() - t0))
    return 0

def main():
    try:
        if sys.argv[1:2] == ['--replay']: return replay(sys.argv[2])
        if sys.argv[1:2] == ['--setup']:
            import props
            bs = [Build('graph.c', 'gcc'), Build('graph.c', 'clang')]
            os.makedirs(BUILD, exist_ok=True)
            with ThreadPoolExecutor(CPUS) as pool: build_all(bs, pool)
            print('tools work'); return 0
        return check(sys.argv[1])
    except Broken as e:
        print('ERROR: %s' % e); return 2

if __name__ == '__main__':
    sys.path.insert(0, V)
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main())
