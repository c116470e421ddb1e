#!/usr/bin/env python3
"""Developer tool: try.py [-t SECONDS] [-w WORDS] HARNESS...  (solve and show timings)"""
import sys, os, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bmc
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
T, W, crate, feat, J = 300, None, "harness", None, 8
while a and a[0].startswith('-'):
    if a[0] == '-t': T = int(a[1])
    if a[0] == '-w': W = a[1]
    if a[0] == '-c': crate = a[1]
    if a[0] == '-f': feat = a[1]
    if a[0] == "-j": J = int(a[1])
    a = a[2:]
g, dt = bmc.codegen(os.path.join(bmc.ROOT, crate), a, env={'BVM_WORDS': W} if W else None, features=feat)
print('codegen %.1f s' % dt, flush=True)
od = os.path.join(bmc.BUILD, 'try'); os.makedirs(od, exist_ok=True)
def one(h):
    j = bmc.Job(h, timeout=T)
    t = time.time()
    try:
        o, loops, funcs = bmc.prepare(h, *g[h], od, nodrop=crate in ('vharness',))
        tp = time.time() - t
        j.solve(o, loops, time.time() + T)
    except bmc.Inconclusive as e:
        j.result, j.detail, tp = 'inconclusive', str(e), 0
    print('%-28s %-12s %6.1fs prep %.1f solver %.1f steps %d vccs %d vars %d iters %d unwind %d %s' % (h, j.result, time.time() - t, tp, j.stats['solver_s'],
          j.stats['steps'], j.stats['vccs'], j.stats['vars'], j.stats['iterations'], j.unwind, j.detail[:300]))
    for k, v in j.raised.items(): print('    raised', v, k[-110:])
    for f in j.failures[:8]: print('    FAIL', f[0][-60:], f[1][:120], f[2].get('file', '')[-40:], f[2].get('line'))
    if j.result == 'violated':
        for p, v in j.inputs.items(): print('    inputs', p[-40:], v[:40])
    sys.stdout.flush()
with ThreadPoolExecutor(J) as ex: list(ex.map(one, a))
