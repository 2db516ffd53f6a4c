#!/usr/bin/env python3
"""Development tool: small mechanical changes to the library, each run through
the checks until one reports a violation. Survivors are listed, to be read.

  mutate.py WORK SEED COUNT [FILE...]   (WORK holds a copy of /verif as v and of /repo as r)"""
import sys, os, re, random, subprocess, time
W, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
files = sys.argv[4:] or ['collector/gembc.c', 'collector/portablems.c', 'allocator.c', 'threads.c', 'roots.c', 'ggggc/gc-gembc.h', 'ggggc/gc.h', 'threads/posix.c', 'collections/list.c', 'collections/map.c', 'ggggc-internals.h', 'ggggc/gc-portablems.h']
rnd = random.Random(seed)
REPO = W + '/r'
def muts(line):
    out = []
    s = line.strip()
    if not s or s.startswith(('*', '/*', '//', '#')): return out
    for a, b in (('<=', '<'), (' < ', ' <= '), ('>=', '>'), (' > ', ' >= '), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), (' + 1', ''), (' - 1', ''), ('+1', '+2'), ('-1', ''), ('++', '--'),
                 (' + ', ' - '), ('& 1', '& 3'), ('~', ''), ('<<', '>>'), (' | ', ' & '), ('NULL', '(void *) 8') , ('= 0', '= 1'), ('= 1', '= 0'), ('continue;', 'break;'), ('break;', ';'), ('->next', '')):
        for m in re.finditer(re.escape(a), line):
            if a in ('<=', '>=', '==', '!=') or not re.search(r'for \(', line) or a not in ('++', 'NULL'):
                out.append(line[:m.start()] + b + line[m.end():])
    m = re.match(r'(\s*)((?:[\w>\.\-\*\[\]\(\) ]+ = [^;]*|[\w]+\([^;]*\)|[\w>\.\-]+(?:\+\+|--|\+=[^;]*|-=[^;]*|\|=[^;]*|&=[^;]*)));(.*)$', line.rstrip('\n'))
    if m and not re.match(r'\s*(struct|unsigned|int|char|void|ggc_size_t|static|return)\b', line): out.append('%s(void) 0;%s\n' % (m.group(1), m.group(3)))
    m = re.match(r'(.*\bif \()(.*)(\)\s*\{?\s*\\?\n)$', line)
    if m: out += ['%s0 && (%s)%s' % m.groups(), '%s1 || (%s)%s' % m.groups()]
    return [o for o in out if o != line]
ORDER = {'collections/list.c': ['C18', 'C21'], 'collections/map.c': ['C19', 'C21'], 'threads.c': ['C12', 'C11', 'C09', 'C08', 'C10'], 'threads/posix.c': ['C11', 'C09', 'C12']}
ALL = 'C01 C21 C04 C03 C13 C16 C17 C15 C05 C06 C02 C08 C12 C11 C09 C20 C14 C10 C07 C18 C19'.split()
cands = []
for f in files:
    ls = open(os.path.join(REPO, f)).readlines()
    for i, l in enumerate(ls):
        for m in muts(l): cands.append((f, i, l, m))
rnd.shuffle(cands)
print('%d candidates' % len(cands), flush=True)
n = killed = 0
for f, i, old, new in cands:
    if n >= count: break
    p = os.path.join(REPO, f)
    src = open(p).readlines()
    assert src[i] == old
    mod = src[:]; mod[i] = new
    open(p, 'w').writelines(mod)
    try:
        ok = all(subprocess.run('%s -w -D_XOPEN_SOURCE=600 -I%s %s -c %s/%s.c -o /dev/null' % (cc, REPO, fl, REPO, u), shell=True, capture_output=True).returncode == 0
                 for cc in ('gcc', 'g++') for fl in ('', '-DGGGGC_DEBUG_MEMORY_CORRUPTION -DGGGGC_FEATURE_EXTTAG -DGGGGC_FEATURE_JITPSTACK', '-DGGGGC_FEATURE_FINALIZERS -DGGGGC_FEATURE_TAGGING')
                 for u in ('collector/gembc', 'collector/portablems', 'allocator', 'threads', 'roots', 'collections/list', 'collections/map'))
        if not ok: continue
        n += 1
        t = time.time(); by = None
        todo = ORDER.get(f, []) + [x for x in ALL if x not in ORDER.get(f, [])]
        # first a part of every check, then all of them
        for c, sample in [(c, '12:%d' % n) for c in todo] + [(c, None) for c in todo]:
            e = dict(os.environ, VERIF_REPO=REPO, VERIF_SEED='1')
            if sample: e['VERIF_SAMPLE'] = sample
            r = subprocess.run(['python3', W + '/v/check.py', c], env=e, capture_output=True, text=True)
            if r.returncode == 1: by = c; break
            if r.returncode == 2: by = 'broken:' + c + ' ' + ' '.join(r.stdout.split())[:200]; break
        if by and not by.startswith('broken'): killed += 1
        print('%s %s:%d %ds by %s\n  - %s\n  + %s' % ('KILLED' if by else 'SURVIVED', f, i + 1, time.time() - t, by, old.strip(), new.strip()), flush=True)
        subprocess.run('rm -rf %s/v/build/* %s/v/replay/*' % (W, W), shell=True) if not by or n % 10 == 0 else None
    finally:
        open(p, 'w').writelines(src)
print('%d of %d killed' % (killed, n))
