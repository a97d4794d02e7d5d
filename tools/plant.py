#!/usr/bin/env python3
"""plant.py SPEC.py [ID..]  -- development tool: builds seeded/<id>/ from a spec and validates it.

SPEC.py defines SEEDS = {id: dict(property, needs, what, edits=[(file, old, new)], main=<rust source>)}
The change is made in a scratch copy of /repo; kept only if it builds, passes the tests, and the demonstration
succeeds without it and fails with it.  Afterwards the checks named are run against the changed copy."""
import sys, os, json, subprocess, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plantw'
DEMO = '''#!/bin/bash
# builds main.rs against the tree in the current directory, in a scratch directory, and runs it
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "/tmp/${W#/tmp/}"' EXIT
mkdir -p "$W/src"; cp "$D/main.rs" "$W/src/"; [ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
smtp-message = { path = "$R/smtp-message" }
%(deps)s
X
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/t"; unset RUSTFLAGS RUSTC_WRAPPER
cd "$W" && cargo build --offline -q > log 2>&1 || { tail -n 30 log; exit 2; }
timeout 100 "$W/t/debug/demo"
'''
FAIL = '''cd "$W" && cargo build --offline -q > log 2>&1
rc=$?
# the program must be refused, for the reason it was written for
[ $rc -ne 0 ] && grep -q "E0277" log && exit 0
tail -n 30 log
exit 1
'''
def sh(c, cwd=None, env=None):
    r = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def main():
    spec = runpy.run_path(sys.argv[1])
    ids = sys.argv[2:] or list(spec['SEEDS'])
    if not os.path.exists(W):
        sh('cp -a /repo %s && rm -rf %s/target' % (W, W))
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', W)
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=W + '/target', CARGO_NET_OFFLINE='true')
    for i in ids:
        s = spec['SEEDS'][i]
        sh('git checkout -q -f .', W)
        for f, old, new in s['edits']:
            t = open(os.path.join(W, f)).read()
            if t.count(old) != 1:
                print(i, 'EDIT does not match once:', f, t.count(old)); break
            open(os.path.join(W, f), 'w').write(t.replace(old, new))
        else:
            d = os.path.join(V, 'seeded', i)
            os.makedirs(d, exist_ok=True)
            rc, diff = sh('git diff', W)
            open(d + '/patch.diff', 'w').write(diff)
            deps = ''
            if 'bytes' in s['main']: deps += 'bytes = "0.4"\n'
            if 'nom::' in s['main']: deps += 'nom = "3.2"\n'
            if 'futures::' in s['main']: deps += 'futures = "0.3"\n'
            if 'smtp_server' in s['main']: deps += 'smtp-server = { path = "$R/smtp-server" }\n'
            if 'smtp_queue' in s['main']: deps += 'smtp-queue = { path = "$R/smtp-queue" }\nfutures = "0.1"\ntokio = "0.1"\n'
            open(d + '/main.rs', 'w').write(s['main'])
            demo = DEMO % dict(deps=deps)
            if s.get('compile_fail'):
                demo = demo[:demo.index('cd "$W" && cargo')] + FAIL
            demo = s.get('demo', demo)
            open(d + '/demo.sh', 'w').write(demo)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
            rc, out = sh('cargo test --workspace --exclude smtp-server-fuzz --offline 2>&1 | grep -E "^test .*FAILED|^error|panicked|^test result"', W, env)
            bad = 'FAILED' in out or 'error' in out
            rc1, o1 = sh('bash %s/demo.sh' % d, W)
            sh('git stash -q', W)
            rc0, o0 = sh('bash %s/demo.sh' % d, W)
            sh('git stash pop -q', W)
            ok = not bad and rc0 == 0 and rc1 not in (0, 2)
            print(i, 'OK' if ok else 'REJECTED', 'tests', 'bad' if bad else 'pass', 'demo', rc0, rc1)
            if not ok:
                print(*[l for l in (out + o0 + o1).splitlines() if 'FAILED' in l or l.startswith('error')][:6], sep='\n')
                print(o0[-300:] if rc0 else '')
            for c in s.get('checks', [s['property']]):
                rc, o = sh('python3 check.py %s' % c, V, dict(os.environ, VP_REPO=W))
                print('   ', c, '->', rc, ' | '.join([l for l in o.splitlines() if not l.startswith('OK')][:3])[:600])
    sh('git checkout -q -f .', W)
main()
