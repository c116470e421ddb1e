#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property by bounded symbolic execution of the real code.

Exit 0: every query was discharged.  Exit 1: a counterexample was found by the solver and reproduced
on the real crates (VIOLATION line).  Exit 2: no answer (time limit, unsupported construct, a
counterexample that does not reproduce).
"""
import json, os, re, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bmc
import plan

ROOT = bmc.ROOT
PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
START = time.time()
LIMIT = float(os.environ.get('VERIF_LIMIT', 840 if TIER == 'quick' else 6 * 3600))
DEADLINE = START + LIMIT
P = plan.PLANS[PID]


def declared(crate, mods):
    out = []
    for m in mods:
        src = open(os.path.join(crate, 'src', m + '.rs')).read()
        out += ['%s::%s' % (m, n) for n in re.findall(r'^    fn ([a-z0-9_]+)\(\)', src, re.M)]
    return out


def findings():
    known, path = {}, os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) harness=(\S+) assertion="([^"]*)" (.*)', l)
            if m and m.group(1) == PID:
                known[(m.group(2), m.group(3))] = m.group(4).strip()
    return known


class Check:
    def __init__(self):
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.jobs, self.violations, self.notes, self.known = [], [], [], findings()
        self.hit = []
        self.bins = None
        self.codegen_s = 0.0
        self.extra = {}

    def replay(self, crate, job):
        """Reproduce a counterexample on the real code; returns (assertion, values, log) or None."""
        with self.lock:
            if self.bins is None:
                self.bins = {}
            if crate not in self.bins:
                self.bins[crate] = bmc.build_replay(P.get('replay', 'replay'))
            bins = self.bins[crate]
        logs = []
        for f in job.failures:
            vals = job.inputs.get(f[0])
            if vals is None:
                continue
            ok, log = bmc.native(bins, job.name, vals)
            logs += log
            if ok:
                return f, vals, log
        self.notes.append('%s: counterexample not reproduced: %s; %s' % (job.name, job.failures[0][1], logs[:2]))
        return None

    def one(self, crate, job, entry, outdir):
        if self.stop.is_set():
            job.result, job.detail = 'skipped', 'a violation was already found'
            return
        try:
            goto, loops, job.funcs = bmc.prepare(job.name, *entry, outdir, nodrop=P.get('nodrop', False))
            job.solve(goto, loops, DEADLINE)
            job.loops = job.bounds(loops)
            try:
                os.unlink(goto)
            except OSError:
                pass
            if job.result == 'violated':
                r = self.replay(crate, job)
                if r is None:
                    job.result, job.detail = 'inconclusive', 'counterexample not reproduced'
                else:
                    f, vals, log = r
                    k = self.known.get((job.name, f[1]))
                    with self.lock:
                        if k is not None:
                            self.hit.append((job.name, k))
                        else:
                            self.violations.append((crate, job, f, vals, log))
                            self.stop.set()
        except bmc.Inconclusive as e:
            job.result, job.detail = 'inconclusive', str(e)
        except Exception:
            job.result, job.detail = 'inconclusive', traceback.format_exc()[-600:]
        with self.lock:
            print('  %-34s %-12s %5.0f s  %s' % (job.name, job.result, job.stats['wall_s'], job.detail[:200].replace('\n', ' ')), flush=True)

    def run(self):
        crate = os.path.join(ROOT, P['crate'])
        if 'before' in P:
            self.extra = P['before'](crate, TIER)
        names = declared(crate, P['modules'])
        names = [n for n in names if TIER == 'thorough' or not n.split('::')[1].startswith('t_')]
        only = os.environ.get('VERIF_ONLY')
        if only:
            names = [n for n in names if re.search(only, n)]
        env = {'BVM_WORDS': str(P.get('words', 2) * (2 if TIER == 'thorough' and P.get('grow') else 1))}
        if TIER == 'thorough':
            env['VT_TIER'] = 'thorough'
        gen, self.codegen_s = bmc.codegen(crate, names, env=env, tag=PID)
        outdir = os.path.join(bmc.BUILD, 'goto', PID)
        os.makedirs(outdir, exist_ok=True)
        heavy = P.get('heavy', ())
        names.sort(key=lambda n: (n.split('::')[1] not in heavy, n.split('::')[1].startswith('t_')))
        self.jobs = [bmc.Job(n, timeout=LIMIT, rules=P.get('rules', ())) for n in names]
        workers = P.get('workers', bmc.CORES)
        with ThreadPoolExecutor(workers) as ex:
            for j in self.jobs:
                ex.submit(self.one, crate, j, gen[j.name], outdir)

    def evidence(self, error=''):
        held = [j for j in self.jobs if j.result == 'held']
        funcs = sorted({bmc.demangle_hint(f) for j in self.jobs for f in j.funcs if re.search(r'asn1_codecs|asn1_compiler|\dgen\d|6tokens|_2vg', f)})
        cov = {
            'explanation': 'Bounded symbolic execution of the compiled code (Kani/CBMC): per harness, every value of the '
                           'symbolic inputs within the bounds is covered by one satisfiability query over all assertions, '
                           'panics and overflow checks; unwinding assertions show that no loop was cut short.',
            'queries': [{
                'harness': j.name, 'result': j.result, 'assertions_checked': getattr(j, 'checked', 0),
                'reachability_witnesses': getattr(j, 'covers', 0), 'ssa_steps': j.stats['steps'],
                'vccs': j.stats['vccs'], 'sat_variables': j.stats['vars'], 'sat_clauses': j.stats['clauses'],
                'solver_s': round(j.stats['solver_s'], 2), 'cbmc_wall_s': round(j.stats['wall_s'], 1),
                'largest_loop_bounds': dict(sorted(((bmc.demangle_hint(k) + '.' + k.rsplit('.', 1)[1], v) for k, v in getattr(j, 'loops', {}).items()), key=lambda x: -x[1])[:4]),
                'detail': j.detail,
            } for j in self.jobs],
            'queries_discharged': len(held),
            'assertions_discharged': sum(getattr(j, 'checked', 0) for j in held),
            'solver_s': round(sum(j.stats['solver_s'] for j in self.jobs), 1),
            'codegen_s': round(self.codegen_s, 1),
            'functions_encoded': funcs,
            'bounds': P['bounds'] + (' Thorough tier: ' + P['thorough'] if TIER == 'thorough' and 'thorough' in P else ''),
            'known_findings_seen': [h for h, _ in self.hit],
            'notes': self.notes + ([error] if error else []),
        }
        cov.update(self.extra or {})
        ev = {'property': PID, 'tier': TIER, 'seed': SEED, 'level': plan.LEVEL, 'coverage': cov,
              'assumptions': plan.COMMON + P.get('assumptions', []), 'wall_s': round(time.time() - START, 1),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', PID + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)

    def report(self):
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for crate, job, f, vals, log in self.violations:
            path = os.path.join(d, '%s-%s.sh' % (PID, job.name.replace('::', '-')))
            with open(path, 'w') as h:
                h.write('#!/bin/sh\n# %s: %s\n# %s:%s\n' % (job.name, f[1].replace('\n', ' '), f[2].get('file'), f[2].get('line')))
                for l in log:
                    h.write('# ' + l.replace('\n', ' ') + '\n')
                h.write('cd %s/%s && exec cargo run --offline --quiet --target-dir ../build/%s -- %s %s\n' % (ROOT, P.get('replay', 'replay'), P.get('replay', 'replay'), job.name, ' '.join(map(str, vals))))
            os.chmod(path, 0o755)
            print('%s: %s (%s:%s)\n  inputs: %s\n  %s' % (job.name, f[1], f[2].get('file'), f[2].get('line'), vals[:40], '\n  '.join(log)))
            print('VIOLATION property=%s replay=%s' % (PID, path), flush=True)


def main():
    c = Check()
    print('%s (%s)' % (PID, TIER), flush=True)
    err = ''
    try:
        c.run()
    except bmc.Violation as v:  # from a 'before' step that executes the real code
        c.evidence(str(v))
        print(v.text)
        print('VIOLATION property=%s replay=%s' % (PID, v.path), flush=True)
        return 1
    except bmc.Inconclusive as e:
        err = str(e)
    c.evidence(err)
    for name, what in c.hit:
        print('KNOWN-FINDING: property=%s %s' % (PID, what))
    if c.violations:
        c.report()
        return 1
    bad = [j for j in c.jobs if j.result not in ('held', 'violated')]
    if err or bad:
        print('NO ANSWER: ' + (err or '; '.join('%s: %s' % (j.name, j.detail[:300]) for j in bad[:5])))
        for n in c.notes:
            print('  ' + n)
        return 2
    print('held: %d queries, %d assertions, %.0f s' % (len(c.jobs), sum(getattr(j, 'checked', 0) for j in c.jobs), time.time() - START))
    return 0


rc = 2
try:
    rc = main()
except Exception:
    traceback.print_exc()
sys.stdout.flush()
os._exit(rc)
