#!/usr/bin/env python3
"""check.py ID  -- decide one property on the current tree of /repo by static analysis.

Dumps the type-checked, borrow-checked MIR of the workspace crates (driver/, a rustc driver built
against the installed nightly), analyses it (engine/, checks/), rewrites evidence/ID.json, prints
    VIOLATION property=ID replay=PATH     for each construct that breaks the property   (exit 1)
    KNOWN-FINDING: property=ID ...        for each finding listed in known_findings.txt
    INCOMPLETE: ...                       for each program path the analysis could not follow
"""
import sys, os, time, json, importlib, shutil, subprocess, tempfile, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
REPO = os.environ.get('VP_REPO', '/repo')
CRATES = ['smtp-message', 'smtp-server', 'smtp-queue']

def run(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def driver():
    target = os.path.join(HERE, 'driver', 'target')
    env = dict(os.environ)
    env.pop('RUSTFLAGS', None)
    env['CARGO_TARGET_DIR'] = target
    rc, out = run(['cargo', '+nightly', 'build', '--offline', '--quiet'], env, os.path.join(HERE, 'driver'))
    b = os.path.join(target, 'debug', 'mirdump')
    if rc != 0 or not os.path.exists(b):
        raise SystemExit('cannot build the MIR driver:\n' + out)
    return b

def dump(work):
    """compile the workspace crates from the current tree with the dumping driver"""
    out = os.path.join(work, 'out')
    os.makedirs(out)
    b = driver()
    rc, sysroot = run(['rustc', '+nightly', '--print', 'sysroot'])
    env = dict(os.environ)
    env.update(RUSTFLAGS='-Zalways-encode-mir', LD_LIBRARY_PATH=os.path.join(sysroot.strip(), 'lib'),
               VP_DUMP_DIR=out, VP_DUMP_CRATES=','.join(c.replace('-', '_') for c in CRATES),
               RUSTC_WORKSPACE_WRAPPER=b, CARGO_TARGET_DIR=os.path.join(work, 'target'))
    cmd = ['cargo', '+nightly', 'check', '--offline', '--quiet']
    for c in CRATES:
        cmd += ['-p', c]
    # the lock file is untracked in some checkouts: work on it where it is, restore it if cargo touches it
    lock = os.path.join(REPO, 'Cargo.lock')
    old = open(lock, 'rb').read() if os.path.exists(lock) else None
    rc, log = run(cmd, env, REPO)
    if old is not None:
        if open(lock, 'rb').read() != old:
            open(lock, 'wb').write(old)
    if rc != 0 or not all(os.path.exists(os.path.join(out, c.replace('-', '_') + '.json')) for c in CRATES):
        raise SystemExit('cannot compile %s:\n%s' % (REPO, log[-4000:]))
    return out

def known(pid):
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s key=' % pid):
                k, _, text = l[len('known: property=%s key=' % pid):].partition(' :: ')
                res.append((k.strip(), text.strip()))
    return res

def main():
    pid = sys.argv[1]
    if pid == 'setup':
        driver()
        return 0
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    t0 = time.time()
    work = None
    pre = os.environ.get('VP_DUMP')         # development only: reuse a dump
    if pre:
        out = pre
    else:
        work = tempfile.mkdtemp(prefix='vpcheck-')
    try:
        if not pre:
            out = dump(work)
        from prog import Prog
        prog = Prog(out)
    finally:
        if work:
            shutil.rmtree(work, ignore_errors=True)
    t1 = time.time()
    from checks.base import Ctx
    import checks.registry as reg
    ctx = Ctx(prog, pid, tier, REPO)
    kn = known(pid)
    ctx.known = set(k[0] for k in kn)
    # an analysis that does not come to an end gives up, it does not take the machine with it
    import signal, resource
    def late(*a):
        raise TimeoutError('analysis stopped after 780 s')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(780)
    resource.setrlimit(resource.RLIMIT_DATA, (14 << 30, resource.getrlimit(resource.RLIMIT_DATA)[1]))
    try:
        reg.CHECKS[pid](ctx)
    except (Exception, MemoryError):
        import traceback
        traceback.print_exc(file=sys.stdout)
        ctx.incomplete.setdefault('internal error: ' + traceback.format_exc().strip().splitlines()[-1], [])
    signal.alarm(0)
    viol = []
    listed = []
    for v in ctx.violations:
        hit = [k for k in kn if k[0] == v['key']]
        if hit:
            listed.append((v, hit[0]))
        else:
            viol.append(v)
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    rp = os.path.join(evd, 'replay', pid + '.txt')
    if os.path.exists(rp):
        os.remove(rp)
    if viol:
        with open(rp, 'w') as f:
            for v in viol:
                f.write('property %s\nrule      %s\nconstruct %s\npath      %s\nwhat      %s\nkey       %s\n\n' %
                        (pid, v['rule'], v['where'], ' > '.join(v['stack']), v['msg'], v['key']))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=ctx.level,
              coverage=ctx.coverage(), assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2),
              violations=len(viol))
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for m, w in ctx.incomplete.items():
        print('INCOMPLETE: %s (in %s)' % (m, ' > '.join(w[-3:])))
    for v, k in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
    for v in viol:
        print('%s: [%s] %s (%s)' % (v['where'], v['rule'], v['msg'], ' > '.join(v['stack'][-3:])))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s: %d obligations discharged%s, %.1fs (dump %.1fs)' % (
        pid, ctx.discharged, '' if not ctx.incomplete else ' (analysis incomplete, see above)', time.time() - t0, t1 - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main())
