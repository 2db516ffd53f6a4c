#!/usr/bin/env python3
"""cell.py HARNESS VARIANT FEATURES SEEDS [ARGS...]: builds and runs one cell, for development"""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
from concurrent.futures import ThreadPoolExecutor
import props
h, v, fs, n = sys.argv[1:5]
args = ' '.join(sys.argv[5:])
fs = [f for f in fs.split('+') if f and f != '-']
if h == 'cxx.cc': c = props.cxx(v, '+'.join(fs), int(n), args)
else: c = check.Cell(props.B(h, v, *fs), args, int(n), timeout=300)
os.makedirs(check.BUILD, exist_ok=True)
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as p:
    check.build_all([c.build], p)
    for r in p.map(lambda s: check.run_one(c, s), range(1, int(n) + 1)):
        for l in r.out.splitlines():
            if l.startswith('CAL'): print(l)
        print('%-6s %5.1fs rc=%d %s %s' % (r.seed, r.wall, r.rc, check.verdict(r), {k: r.stats[k] for k in list(r.stats)[:int(os.environ.get('K', '5'))]}))
