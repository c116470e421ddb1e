#!/usr/bin/env python3
"""Solver pipeline: harness crate -> goto program (Kani) -> CBMC -> verdict, with counterexample replay.

The goto programs are regenerated from /repo's current sources on every run (cargo decides what to
recompile by content).  A verdict is the SAT solver's over all values of the symbolic inputs within
the unwinding bounds; bounds that turn out too small are reported by CBMC's unwinding assertions and
raised here, never silently truncated.
"""
import fcntl, glob, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, 'build')
KANI = None
for d in sorted(glob.glob(os.path.expanduser('~/.kani/kani-*')) + glob.glob('/root/.kani/kani-*')):
    KANI = d
BIN = os.path.join(KANI or '', 'bin')
CORES = os.cpu_count() or 4

ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'RUST_LOG'):
    ENV.pop(k, None)


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, path):
        Exception.__init__(self, text)
        self.text, self.path = text, path


def run(cmd, timeout=None, **kw):
    """Run a command in its own process group; on timeout the whole group is ended."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True,
                         text=True, errors='replace', **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, ''


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def codegen(crate, harnesses, env=None, features=None, timeout=600, tag=None):
    """Compile `crate` with Kani and return {pretty_name: (mangled, symtab)} for the wanted harnesses."""
    tag = tag or os.path.basename(crate) + ('-' + features.replace(',', '-') if features else '')
    e = dict(ENV)
    if env:
        e.update(env)
        tag += '-' + '-'.join('%s%s' % kv for kv in sorted(env.items()))
    target = os.path.join(BUILD, 'kani', tag)
    cmd = ['cargo', 'kani', '-Z', 'unstable-options', '-Z', 'stubbing', '--no-memory-safety-checks',
           '--no-assertion-reach-checks', '--only-codegen', '--target-dir', target]
    if features:
        cmd += ['--features', features]
    for h in harnesses:
        cmd += ['--harness', h]
    with Lock('kani-' + tag):
        for f in glob.glob(target + '/kani/**/*kani-metadata.json', recursive=True):
            os.unlink(f)
        # the harness selection is not part of cargo's fingerprint: force the harness crate itself
        for f in glob.glob(target + '/kani/**/.fingerprint/vh-*', recursive=True) + glob.glob(target + '/kani/**/build/vh', recursive=True):
            shutil.rmtree(f, ignore_errors=True)
        t = time.time()
        rc, out = run(cmd, timeout, cwd=crate, env=e)
        if rc != 0:
            raise Inconclusive('codegen failed (%s):\n%s' % (rc, out[-6000:]))
        metas = glob.glob(target + '/kani/**/*kani-metadata.json', recursive=True)
        res = {}
        for m in metas:
            d = json.load(open(m))
            for p in d.get('proof_harnesses', []):
                g = p.get('goto_file')
                if g and os.path.exists(g):
                    res[p['pretty_name']] = (p['mangled_name'], g)
        missing = [h for h in harnesses if h not in res]
        if missing:
            raise Inconclusive('no goto program for %s\n%s' % (missing, out[-3000:]))
        return {h: res[h] for h in harnesses}, time.time() - t


def step(cmd, timeout=600):
    rc, out = run(cmd, timeout)
    if rc != 0:
        raise Inconclusive('%s failed (%s): %s' % (os.path.basename(cmd[0]), rc, out[-2000:]))
    return out


def godead():
    """The scope-ending pass over goto binaries (tools/godead), built on demand."""
    src = os.path.join(ROOT, 'tools/godead/main.rs')
    exe = os.path.join(BUILD, 'bin/godead')
    with Lock('godead'):
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            step(['rustc', '--edition', '2021', '-O', '-A', 'warnings', '-o', exe + '.tmp', src])
            os.replace(exe + '.tmp', exe)
    return exe


def prepare(name, mangled, symtab, outdir, nodrop=False):
    o = os.path.join(outdir, name.replace('::', '.') + '.goto')
    step([BIN + '/goto-cc', symtab, os.path.join(KANI, 'library/kani/kani_lib.c'), '-o', o])
    step([BIN + '/goto-cc', o, '--function', mangled, '-o', o])
    step([BIN + '/goto-instrument', '--add-library', '--no-malloc-may-fail', o, o])
    if nodrop:
        # Destructors of the encoded code only release memory; formatting only makes message texts.
        step([BIN + '/goto-instrument', '--remove-function-body-regex', '.*4core3ptr(13drop_in_place|9drop_glue).*|.*(5Debug|7Display)3fmt.*', o, o])
        step([BIN + '/goto-instrument', '--generate-function-body-options', 'nondet-return', '--generate-function-body',
              '.*4core3ptr(13drop_in_place|9drop_glue).*', o, o])
    step([BIN + '/goto-instrument', '--generate-function-body-options', 'assert-false-assume-false',
          '--generate-function-body', '.*', '--drop-unused-functions', o, o])
    step([BIN + '/goto-instrument', '--ensure-one-backedge-per-target', o, o])
    if not nodrop:
        step([godead(), o, o])
    out = step([BIN + '/goto-instrument', '--show-loops', '--json-ui', o])
    loops = {}  # mangled loop name -> the name under which its unwinding assertion is reported
    for m in json.loads(out):
        for l in m.get('loops', []):
            loops[l['name']] = l.get('sourceLocation', {}).get('function', '') + '.unwind.' + l['name'].rsplit('.', 1)[1]
    out = step([BIN + '/goto-instrument', '--list-goto-functions', o])
    funcs = sorted({l.split()[0] for l in out.splitlines() if l.startswith('_R')})
    return o, loops, funcs


CBMC_FLAGS = ['--no-malloc-may-fail', '--no-undefined-shift-check', '--no-signed-overflow-check', '--no-bounds-check',
              '--no-pointer-check', '--nan-check', '--no-self-loops-to-assumptions', '--no-pointer-primitive-check',
              '--no-div-by-zero-check', '--object-bits', '16', '--slice-formula']

# Loop bounds by mangled loop name; the first match counts.  A high bound on a loop whose exit
# condition is concrete costs nothing; the others start low and are raised on demand.
DEFAULT_RULES = [
    (r'(5types|3gen).*AperCodec.*6decode', 4),
    (r'store_of', 18), (r'12decode_align', 9), (r'9from_utf8', 8), (r'_2vh\d', 80), (r'6bitvec3raw|Store', 17), (r'BitVec.*3raw', 20),
    (r'6bitvec', 6), (r'try_fold|8position|slice4iter', 18), (r'memcmp|memcpy|memset|memmove', 40),
]


def demangle_hint(f):
    """Readable path of a v0-mangled name: the identifiers in order."""
    ids, i = [], 0
    s = re.sub(r'^_R', '', f)
    s = re.sub(r's[0-9A-Za-z]*_', '', s)
    for m in re.finditer(r'(\d+)_?([A-Za-z_][A-Za-z0-9_]*)', s):
        n = int(m.group(1))
        if 0 < n <= len(m.group(2)):
            ids.append(m.group(2)[:n])
    return '::'.join(ids)


class Job:
    def __init__(self, name, unwind=2, rules=(), timeout=600, words=None, solver='cadical', what='', maxbound=300):
        self.name, self.unwind, self.rules, self.timeout = name, unwind, list(rules), timeout
        self.solver, self.what, self.maxbound = solver, what, maxbound
        self.words = words
        self.raised = {}
        self.result = None
        self.detail = ''
        self.failures = []
        self.stats = dict(solver_s=0.0, steps=0, vccs=0, vars=0, clauses=0, iterations=0, wall_s=0.0)
        self.funcs = []

    def bounds(self, loops):
        out = {}
        for l in loops:
            if l in self.raised:
                out[l] = self.raised[l]
                continue
            for r, n in self.rules + DEFAULT_RULES:
                if re.search(r, l):
                    out[l] = n
                    break
        return out

    def cbmc(self, goto, loops, deadline, trace=None, props=()):
        us = ','.join('%s:%d' % kv for kv in self.bounds(loops).items())
        cmd = [BIN + '/cbmc'] + CBMC_FLAGS + ['--sat-solver', self.solver, '--unwind', str(self.unwind)]
        if us:
            cmd += ['--unwindset', us]
        if trace:
            cmd += ['--trace']
        for p in props:
            cmd += ['--property', p]
        cmd += [goto, '--verbosity', '9', '--json-ui']
        left = min(self.timeout, deadline - time.time())
        if left <= 1:
            raise Inconclusive('out of time')
        t = time.time()
        rc, out = run(cmd, left)
        self.stats['wall_s'] += time.time() - t
        if rc is None:
            raise Inconclusive('solver time limit (%.0f s)' % left)
        try:
            msgs = json.loads(out)
        except ValueError:
            raise Inconclusive('cbmc gave no result (rc %s): %s' % (rc, out[-800:]))
        res = None
        for m in msgs:
            if 'result' in m:
                res = m['result']
            t = m.get('messageText', '')
            if not isinstance(t, str):
                continue
            x = re.match(r'Runtime (\S+): ([0-9.e+-]+)s', t)
            if x and x.group(1) in ('Solver', 'decision', 'Symex', 'Convert'):
                if x.group(1) == 'Solver':
                    self.stats['solver_s'] += float(x.group(2))
            x = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
            if x:
                self.stats['vccs'] = int(x.group(2))
            x = re.match(r'size of program expression: (\d+) steps', t)
            if x:
                self.stats['steps'] = int(x.group(1))
            x = re.match(r'(\d+) variables, (\d+) clauses', t)
            if x:
                self.stats['vars'], self.stats['clauses'] = int(x.group(1)), int(x.group(2))
        if res is None:
            err = ' '.join(str(m.get('messageText', '')) for m in msgs if m.get('messageType') == 'ERROR')
            raise Inconclusive('cbmc: no result (rc %s): %s' % (rc, err[-600:]))
        self.stats['iterations'] += 1
        return res

    def solve(self, goto, loops, deadline):
        """Sets self.result to 'held', 'violated' or 'inconclusive'."""
        try:
            for _ in range(14):
                res = self.cbmc(goto, loops, deadline)
                bad, unw, cap, covers = [], [], [], {}
                for r in res:
                    p, d, st = r['property'], r.get('description', ''), r['status']
                    if '.cover.' in p:
                        covers[d] = covers.get(d, False) or st == 'FAILURE'
                    elif st == 'SUCCESS' or '.safety_check.' in p and re.search('misaligned|null pointer', d):
                        continue  # hampi has no unsafe code; CBMC loses dangling pointers in unions
                    elif '.unwind.' in p or 'unwinding assertion' in d or '.recursion' in p:
                        unw.append((p, d, r.get('sourceLocation', {})))
                    elif 'MODEL-' in d or 'unsupported' in d.lower() and 'kani' in d.lower() or '.no-body.' in p or 'is not currently supported by Kani' in d:
                        cap.append((p, d))
                    else:
                        bad.append((p, d, r.get('sourceLocation', {})))
                if bad:
                    self.failures = bad
                    self.inputs = {}
                    tr = self.cbmc(goto, loops, deadline, trace=True, props=[b[0] for b in bad[:6]])
                    for r in tr:
                        if r['status'] == 'FAILURE' and 'trace' in r:
                            self.inputs[r['property']] = inputs_of(r['trace'])
                    self.result = 'violated'
                    return
                if unw:
                    grew = False
                    for p, d, loc in unw:
                        keys = [k for k, v in loops.items() if v == p or k == p.replace('.unwind.', '.')]
                        for key in keys:
                            cur = self.bounds(loops).get(key, self.unwind)
                            new = cur + max(2, cur // 2) if cur < 8 else cur * 2
                            if cur >= self.maxbound:
                                raise Inconclusive('loop %s needs more than %d iterations' % (key, cur))
                            self.raised[key] = min(new, self.maxbound)
                            grew = True
                        if not keys:
                            if self.unwind >= 12:
                                raise Inconclusive('recursion deeper than %d: %s' % (self.unwind, p))
                            self.unwind += 1
                            grew = True
                    if grew:
                        continue
                if cap:
                    raise Inconclusive('; '.join(sorted({d for _, d in cap})[:4]))
                missed = sorted(k for k, v in covers.items() if not v)
                if missed:
                    raise Inconclusive('vacuous: never reached: ' + ', '.join(missed))
                self.covers = len(covers)
                self.checked = len(res) - len(covers)
                self.result = 'held'
                return
            raise Inconclusive('unwinding bounds still too small')
        except Inconclusive as e:
            self.result, self.detail = 'inconclusive', str(e)


def inputs_of(trace):
    vals = []
    for s in trace:
        if s.get('stepType') != 'assignment':
            continue
        lhs = s.get('lhs', '')
        if not lhs.startswith('goto_symex$$return_value') or 'any_raw_i' not in lhs:
            continue
        v = s.get('value', {})
        b = v.get('binary')
        if b is None:
            d = v.get('data')
            vals.append(int(str(d).lower() in ('true', '1')))
        else:
            vals.append(int(b, 2))
    return vals


def build_replay(which='replay', timeout=600):
    bins = {}
    target = os.path.join(BUILD, which)
    with Lock(which):
        for prof in ('dev', 'release'):
            rc, out = run(['cargo', 'build', '--offline', '--quiet', '--profile', prof, '--target-dir', target],
                          timeout, cwd=os.path.join(ROOT, which), env=ENV)
            if rc != 0:
                raise Inconclusive('replay build failed: ' + out[-3000:])
            bins[prof] = os.path.join(target, 'debug' if prof == 'dev' else 'release', 'vreplay')
    return bins


def native(bins, name, vals):
    """True if some profile reproduces; returns the transcript too."""
    log, hit = [], False
    for prof, b in bins.items():
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        try:
            p = subprocess.run([b, name] + [str(v) for v in vals], capture_output=True, text=True, timeout=60,
                               errors='replace', env=ENV, preexec_fn=lim)
            rc, txt = p.returncode, (p.stdout + p.stderr).strip()
        except subprocess.TimeoutExpired:
            rc, txt = 'timeout', ''
        log.append('%s: exit %s: %s' % (prof, rc, txt[-400:].replace('\n', ' | ')))
        if rc == 101 or rc == 'timeout' or (isinstance(rc, int) and rc < 0):
            hit = True
    return hit, log
