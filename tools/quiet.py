#!/usr/bin/env python3
"""quiet.py SPEC.py [ID..] -- development tool: runs checks on edits of a scratch copy of /repo.

SPEC.py defines EDITS = {id: dict(edits=[(file, old, new)..], checks=[..] or None for all, expect=0 or 1)}.
expect=0: the edit keeps the behaviour, every check has to stay quiet and complete."""
import sys, os, subprocess, runpy, json, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('QW', '/tmp/quietw')
D = os.environ.get('QD', '/tmp/quietd')
def sh(c, cwd=None, env=None):
    r = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
def main():
    spec = runpy.run_path(sys.argv[1])
    ids = sys.argv[2:] or list(spec['EDITS'])
    allc = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    if not os.path.exists(W):
        sh('cp -a /repo %s && rm -rf %s/target' % (W, W))
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', W)
    for i in ids:
        s = spec['EDITS'][i]
        sh('git checkout -q -f .', W)
        bad = False
        for f, old, new in s['edits']:
            t = open(os.path.join(W, f)).read()
            if t.count(old) != 1:
                print(i, 'EDIT does not match once:', f, t.count(old), old[:60]); bad = True; break
            open(os.path.join(W, f), 'w').write(t.replace(old, new))
        if bad:
            continue
        rc, o = sh('bash %s/tools/dump.sh %s/out %s' % (V, D, W))
        if not os.path.exists(D + '/out/smtp_server.json') or 'error' in o and 'could not compile' in o:
            print(i, 'does not compile', o[-800:]); continue
        if s.get('test'):
            rc, out = sh('cargo test --workspace --exclude smtp-server-fuzz --offline 2>&1 | grep -E "^test .*FAILED|^error"', W,
                         dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=D + '/target', CARGO_NET_OFFLINE='true'))
            if out:
                print(i, 'TESTS', out[:300])
        cs = s.get('checks') or allc
        def one(c):
            return c, sh('python3 check.py %s' % c, V, dict(os.environ, VP_REPO=W, VP_DUMP=D + '/out'))
        with ThreadPoolExecutor(s.get('par', 4)) as ex:
            for c, (rc, o) in ex.map(one, cs):
                inc = [l for l in o.splitlines() if l.startswith('INCOMPLETE')]
                exp = s.get('expect', 0)
                ok = rc == exp and (exp or not inc)
                if not ok or len(cs) <= 4:
                    print(' ', i, c, '->', rc, '' if ok else '<<<', ' | '.join([l for l in o.splitlines() if not l.startswith('OK')][:4])[:700])
        print(i, 'done', len(cs), 'checks')
        sys.stdout.flush()
    sh('git checkout -q -f .', W)
main()
