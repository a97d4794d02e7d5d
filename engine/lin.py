"""Linear integer expressions and a small exact-enough entailment test (Fourier-Motzkin with
integer tightening).  A Lin is (const, ((sym, coef), ...)) with symbols sorted by repr order."""
from math import gcd
from functools import lru_cache

def _key(s):
    return repr(s)

_keyc = {}
def skey(s):
    k = _keyc.get(s)
    if k is None:
        k = repr(s)
        _keyc[s] = k
    return k

def const(c):
    return (c, ())

ZERO = (0, ())
ONE = (1, ())

def sym(s):
    return (0, ((s, 1),))

def mk(c, d):
    return (c, tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda x: skey(x[0]))))

def add(a, b):
    if not a[1]:
        return (a[0] + b[0], b[1])
    if not b[1]:
        return (a[0] + b[0], a[1])
    d = dict(a[1])
    for s, k in b[1]:
        d[s] = d.get(s, 0) + k
    return mk(a[0] + b[0], d)

def scale(a, k):
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))

def sub(a, b):
    return add(a, scale(b, -1))

def addc(a, c):
    return (a[0] + c, a[1])

def is_const(a):
    return not a[1]

def subst(a, m):
    """m: sym -> Lin"""
    if not a[1]:
        return a
    hit = False
    for s, _ in a[1]:
        if s in m:
            hit = True
            break
    if not hit:
        return a
    r = (a[0], ())
    d = {}
    c = a[0]
    for s, k in a[1]:
        e = m.get(s)
        if e is None:
            d[s] = d.get(s, 0) + k
        else:
            c += e[0] * k
            for s2, k2 in e[1]:
                d[s2] = d.get(s2, 0) + k2 * k
    return mk(c, d)

def show(a):
    r = []
    for s, k in a[1]:
        n = symname(s)
        r.append(n if k == 1 else '%d*%s' % (k, n))
    if a[0] or not r:
        r.append(str(a[0]))
    return '+'.join(r).replace('+-', '-')

def symname(s):
    if isinstance(s, tuple):
        if s[0] == 'B':
            return '%s[%s]' % (s[1], show(s[2]))
        return '.'.join(symname(x) if not isinstance(x, tuple) or x[:1] != ((),) else str(x) for x in s)
    return str(s)

def tighten(e):
    """e >= 0, integers: divide by gcd of coefficients, floor the constant"""
    if not e[1]:
        return e
    g = 0
    for _, k in e[1]:
        g = gcd(g, abs(k))
        if g == 1:
            return e
    return (e[0] // g, tuple((s, k // g) for s, k in e[1]))

def simplify(cs):
    """keep strongest constant per coefficient vector; None if contradictory"""
    best = {}
    for e in cs:
        e = tighten(e)
        if not e[1]:
            if e[0] < 0:
                return None
            continue
        o = best.get(e[1])
        if o is None or e[0] < o:
            best[e[1]] = e[0]
    # contradiction of opposite pairs
    for v, c in best.items():
        neg = tuple((s, -k) for s, k in v)
        o = best.get(neg)
        if o is not None and o + c < 0:
            return None
    return frozenset((c, v) for v, c in best.items())

LIMIT = 4000

@lru_cache(maxsize=200000)
def infeasible(cs):
    """cs: frozenset of Lin meaning e >= 0; True only if no integer solution (sound 'True')."""
    cs = simplify(cs)
    if cs is None:
        return True
    while cs:
        # choose symbol with least product
        pos = {}
        neg = {}
        for e in cs:
            for s, k in e[1]:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        bests = None
        bestc = None
        for s in set(pos) | set(neg):
            c = pos.get(s, 0) * neg.get(s, 0) - pos.get(s, 0) - neg.get(s, 0)
            if bestc is None or c < bestc or (c == bestc and skey(s) < skey(bests)):
                bestc = c
                bests = s
        cs2 = eliminate(cs, bests)
        if cs2 is None:
            return True
        if len(cs2) > LIMIT:
            return False
        cs = cs2
    return False

def eliminate(cs, s):
    """project symbol s out; None if contradictory"""
    P = []
    N = []
    rest = []
    for e in cs:
        k = 0
        for s2, k2 in e[1]:
            if s2 == s:
                k = k2
                break
        if k > 0:
            P.append((k, e))
        elif k < 0:
            N.append((-k, e))
        else:
            rest.append(e)
    for kp, p in P:
        for kn, n in N:
            rest.append(add(scale(p, kn), scale(n, kp)))
    return simplify(rest)

def relevant(cs, e):
    """constraints connected with e through shared symbols"""
    want = set(s for s, _ in e[1])
    cs = list(cs)
    out = []
    changed = True
    while changed and cs:
        changed = False
        rest = []
        for c in cs:
            if any(s in want for s, _ in c[1]):
                out.append(c)
                for s, _ in c[1]:
                    want.add(s)
                changed = True
            else:
                rest.append(c)
        cs = rest
    return out

@lru_cache(maxsize=400000)
def entails(cs, e):
    """cs => e >= 0"""
    if not e[1]:
        if e[0] >= 0:
            return True
    for c in cs:
        if c[1] == e[1] and c[0] <= e[0]:
            return True
    rel = relevant(cs, e) if e[1] else list(cs)
    if e[1] and not rel:
        return False
    return infeasible(frozenset(rel + [(-e[0] - 1, tuple((s, -k) for s, k in e[1]))]))

def project(cs, keep):
    """eliminate all symbols not in keep"""
    while True:
        cand = {}
        for e in cs:
            for s, k in e[1]:
                if s not in keep:
                    p, n = cand.get(s, (0, 0))
                    cand[s] = (p + (k > 0), n + (k < 0))
        if not cand:
            return cs
        s = min(cand, key=lambda s: (cand[s][0] * cand[s][1] - cand[s][0] - cand[s][1], skey(s)))
        cs = eliminate(cs, s)
        if cs is None:
            return None

def lower(cs, e):
    """largest k found such that cs => e >= k; None if unbounded"""
    if not e[1]:
        return e[0]
    z = ('z',)
    d = sub(e, sym(z))
    r = project(frozenset(relevant(cs, e)) | {d, scale(d, -1)}, {z})
    if r is None:
        return None
    best = None
    for c in r:
        if len(c[1]) == 1 and c[1][0][1] > 0:
            k = -(c[0] // c[1][0][1])      # k*z + c >= 0, tightened
            best = k if best is None else max(best, k)
    return best
