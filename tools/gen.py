"""Generates, with the compiler in /repo, the code the g-harnesses check (build/gen/g.rs)."""
import os, re
import bmc

SCHEMAS = ['common.asn', 'g.asn']
REPO = os.environ.get('HAMPI_REPO', '/repo')
GEN = os.path.join(bmc.BUILD, 'gen', 'g.rs')
ASNC = os.path.join(bmc.BUILD, 'asnc')

SCRIPT = '''#!/bin/sh
# %(what)s
cd %(root)s || exit 2
cargo build --offline --quiet --manifest-path %(repo)s/asn-compiler/Cargo.toml --bin hampi-asn1c --target-dir %(asnc)s || exit 2
mkdir -p build/gen
(cd gschemas && timeout 120 %(asnc)s/debug/hampi-asn1c %(schemas)s) > build/gen/g.rs || exit 1
cd greplay && exec cargo build --offline --quiet --target-dir ../build/greplay
'''


def violation(pid, what, log):
    d = os.path.join(bmc.ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + '-compile.sh')
    with open(path, 'w') as f:
        f.write(SCRIPT % dict(what=what, root=bmc.ROOT, repo=REPO, asnc=ASNC, schemas=' '.join(SCHEMAS)))
    os.chmod(path, 0o755)
    raise bmc.Violation(what + '\n' + log[-3000:], path)


def before(pid):
    def go(crate, tier):
        with bmc.Lock('gen'):
            rc, out = bmc.run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', REPO + '/asn-compiler/Cargo.toml',
                               '--bin', 'hampi-asn1c', '--target-dir', ASNC], 600, env=bmc.ENV)
            if rc != 0:
                raise bmc.Inconclusive('hampi-asn1c does not build: ' + out[-2000:])
            os.makedirs(os.path.dirname(GEN), exist_ok=True)
            tmp = GEN + '.new'
            rc, out = bmc.run(['sh', '-c', 'exec timeout 120 %s/debug/hampi-asn1c %s > %s' % (ASNC, ' '.join(SCHEMAS), tmp)], 150,
                              cwd=os.path.join(bmc.ROOT, 'gschemas'), env=bmc.ENV)
            if rc != 0:
                violation(pid, 'hampi-asn1c does not compile gschemas/*.asn (exit %s)' % rc, out)
            new = open(tmp).read()
            if not os.path.exists(GEN) or open(GEN).read() != new:
                os.replace(tmp, GEN)
            else:
                os.unlink(tmp)
        try:
            bmc.build_replay('greplay')
        except bmc.Inconclusive as e:
            bmc.build_replay('dreplay')  # no answer if derived codecs do not build at all
            violation(pid, 'the generated code does not build, or is not that of the definitions in gschemas/*.asn', str(e))
        return {'generated': {'schemas': SCHEMAS, 'lines': new.count('\n'), 'types': len(re.findall(r'^pub (?:struct|enum|type) ', new, re.M))}}
    return go
