#!/usr/bin/env python3
"""Developer tool: prof.py HARNESS  (SSA assignments per source function of a prepared goto program)"""
import sys, os, re, json, time, collections, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bmc
h = sys.argv[1]; crate = sys.argv[2] if len(sys.argv) > 2 else 'harness'
g, _ = bmc.codegen(os.path.join(bmc.ROOT, crate), [h], env={'BVM_WORDS': '2'})
os.makedirs('/tmp/prof', exist_ok=True)
o, loops, f = bmc.prepare(h, *g[h], '/tmp/prof')
j = bmc.Job(h, timeout=600); 
orig = bmc.run
def run(cmd, t=None, **k):
    global last
    if cmd[0].endswith('/cbmc'): last = cmd
    return orig(cmd, t, **k)
bmc.run = run
j.solve(o, loops, time.time() + 600)
print(j.result, j.stats)
cmd = [x for x in last if x not in ('--json-ui', '--verbosity', '9')] + ['--program-only']
out = open('/tmp/prof/ssa.txt', 'w'); subprocess.run(cmd, stdout=out)
c = collections.Counter(); phi = collections.Counter(); n = 0
for l in open('/tmp/prof/ssa.txt', errors='replace'):
    m = re.match(r'^(?://.*|\(\d+\) )?\s*(?:\(\d+\) )?([A-Za-z_][^!#:]*)', l)
    if not l.startswith('('): continue
    n += 1
    m = re.match(r'^\(\d+\) (?:ASSERT|ASSUME)?\(?([^!#@ ]*)', l)
    k = m.group(1) if m else '?'
    c[bmc.demangle_hint(k.split('::')[0])[:80] + '|' + k.split('::')[-1][:30] if '::' in k else k[:60]] += 1
    ph = ' ? ' in l
    phi[ph] += 1
print(n, phi)
for k, v in c.most_common(60): print(v, k)
