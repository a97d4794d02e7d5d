"""Finite automata over byte classes and markers.

A language is a DFA whose symbols are byte-class numbers (ints >= 0), END (the point where a parser
stopped consuming) and markers (tuples).  Transitions are partial dicts; every state is live."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
try:
    import numpy as np
except ImportError:             # slower, same result
    np = None

END = -1
LIMIT = 400000

class TooBig(Exception):
    pass

class D:
    __slots__ = ('tr', 'acc', '_u')
    def __init__(self, tr, acc):
        self.tr, self.acc, self._u = tr, acc, None
    def __len__(self):
        return len(self.tr)
    def empty(self):
        return not any(self.acc)

NONE = D([{}], [False])
EPS = D([{}], [True])

def build(starts, nxt, acc, eps=None):
    """subset construction over hashable NFA states; nxt(q) -> iterable of (symbol or None, q')"""
    memo = {}
    def succ(q):
        r = memo.get(q)
        if r is None:
            r = memo[q] = list(nxt(q))
        return r
    clo = {}
    def closure(q):
        r = clo.get(q)
        if r is None:
            seen = {q}
            todo = [q]
            while todo:
                for s, t in succ(todo.pop()):
                    if s is None and t not in seen:
                        seen.add(t); todo.append(t)
            r = clo[q] = frozenset(seen)
        return r
    def close(qs):
        r = set()
        for q in qs:
            if q not in r:
                r |= closure(q)
        return frozenset(r)
    s0 = close(starts)
    idx = {s0: 0}
    order = [s0]
    tr = []
    ac = []
    accm = {}
    i = 0
    while i < len(order):
        st = order[i]
        i += 1
        mv = {}
        a = False
        for q in st:
            x = accm.get(q)
            if x is None:
                x = accm[q] = bool(acc(q))
            a = a or x
            for s, t in succ(q):
                if s is not None:
                    mv.setdefault(s, set()).add(t)
        ac.append(a)
        row = {}
        for s, ts in mv.items():
            c = close(ts)
            k = idx.get(c)
            if k is None:
                k = idx[c] = len(order)
                order.append(c)
                if k > LIMIT:
                    raise TooBig()
            row[s] = k
        tr.append(row)
    return minimise(D(tr, ac))

def trim(d):
    n = len(d.tr)
    rev = [[] for _ in range(n)]
    for i, r in enumerate(d.tr):
        for t in r.values():
            rev[t].append(i)
    live = [False] * n
    todo = [i for i in range(n) if d.acc[i]]
    for i in todo:
        live[i] = True
    while todo:
        for j in rev[todo.pop()]:
            if not live[j]:
                live[j] = True; todo.append(j)
    if not live[0]:
        return NONE
    # reachable and live, start first
    order = [0]
    idx = {0: 0}
    for q in order:
        for s, t in d.tr[q].items():
            if live[t] and t not in idx:
                idx[t] = len(order); order.append(t)
    return D([{s: idx[t] for s, t in d.tr[q].items() if live[t]} for q in order], [d.acc[q] for q in order])

def minimise(d):
    d = trim(d)
    n = len(d.tr)
    if n == 1:
        return d
    syms = sorted({s for r in d.tr for s in r}, key=repr)
    if np is not None:
        col = {s: k for k, s in enumerate(syms)}
        T = np.full((n + 1, len(syms)), n, dtype=np.int64)
        for i, r in enumerate(d.tr):
            for s, t in r.items():
                T[i, col[s]] = t
        part = np.zeros(n + 1, dtype=np.uint64)
        part[:n] = [2 if a else 1 for a in d.acc]
        rng = np.random.default_rng(7)
        w = rng.integers(1, 2**63, size=len(syms) + 1, dtype=np.uint64) | np.uint64(1)
        cnt = len(np.unique(part))
        vals = rng.integers(1, 2**63, size=n + 2, dtype=np.uint64)
        while True:
            code = vals[part.astype(np.int64)]
            h = code * w[-1]
            for k in range(len(syms)):
                h += code[T[:, k]] * w[k]
            u, inv = np.unique(h, return_inverse=True)
            part = inv.astype(np.uint64)
            if len(u) == cnt:
                break
            cnt = len(u)
        part = part.astype(np.int64).tolist()
    else:
        part = [1 if a else 0 for a in d.acc] + [2]
        cnt = 3
        while True:
            sig = {}
            new = []
            for i in range(n):
                k = (part[i], tuple((s, part[t]) for s, t in sorted(d.tr[i].items(), key=lambda x: repr(x[0]))))
                new.append(sig.setdefault(k, len(sig)))
            new.append(-1)
            part = new
            if len(sig) == cnt:
                break
            cnt = len(sig)
    rep = {}
    order = []
    todo = [0]
    rep[part[0]] = 0
    order.append(0)
    for q in order:
        for s, t in d.tr[q].items():
            if part[t] not in rep:
                rep[part[t]] = len(order)
                order.append(t)
    return D([{s: rep[part[t]] for s, t in d.tr[q].items()} for q in order], [d.acc[q] for q in order])

# ---- languages over byte classes
def lit(sets):
    """words c1 c2 .. cn with ci in sets[i]"""
    n = len(sets)
    if any(not s for s in sets):
        return NONE
    return D([{c: i + 1 for c in sets[i]} for i in range(n)] + [{}], [False] * n + [True])

def sigma_star(k):
    return D([{c: 0 for c in range(k)}], [True])

def complement(d, k):
    n = len(d.tr)
    tr = []
    for r in d.tr:
        x = dict(r)
        for c in range(k):
            x.setdefault(c, n)
        tr.append(x)
    tr.append({c: n for c in range(k)})
    return minimise(D(tr, [not a for a in d.acc] + [True]))

def union(*ds):
    ds = [d for d in ds if not d.empty()]
    if not ds:
        return NONE
    if len(ds) == 1:
        return ds[0]
    return build([(i, 0) for i in range(len(ds))], lambda q: [(s, (q[0], t)) for s, t in ds[q[0]].tr[q[1]].items()],
                 lambda q: ds[q[0]].acc[q[1]])

def inter(a, b):
    """same alphabet: every symbol synchronised"""
    def nxt(q):
        rb = b.tr[q[1]]
        return [(s, (t, rb[s])) for s, t in a.tr[q[0]].items() if s in rb]
    return build([(0, 0)], nxt, lambda q: a.acc[q[0]] and b.acc[q[1]])

def filt(a, p):
    """words of a (with markers and END) whose bytes form a word of p"""
    def nxt(q):
        rp = p.tr[q[1]]
        out = []
        for s, t in a.tr[q[0]].items():
            if type(s) is int and s >= 0:
                if s in rp:
                    out.append((s, (t, rp[s])))
            else:
                out.append((s, (t, q[1])))
        return out
    return build([(0, 0)], nxt, lambda q: a.acc[q[0]] and p.acc[q[1]])

def rename(a, f):
    """f(symbol) -> symbol, or None to erase"""
    m = {}
    def g(s):
        if s not in m:
            m[s] = f(s)
        return m[s]
    return build([0], lambda q: [(g(s), t) for s, t in a.tr[q].items()], lambda q: a.acc[q])

def is_byte(s):
    return type(s) is int and s >= 0

def erase(a):
    """drop markers and END"""
    if all(is_byte(s) for r in a.tr for s in r):
        return a
    return rename(a, lambda s: s if is_byte(s) else None)

def unmark(a):
    """drop markers, keep END"""
    if all(type(s) is int for r in a.tr for s in r):
        return a
    return rename(a, lambda s: s if type(s) is int else None)

def concat(*ds):
    if any(d.empty() for d in ds):
        return NONE
    def nxt(q):
        i, s = q
        out = [(c, (i, t)) for c, t in ds[i].tr[s].items()]
        if ds[i].acc[s] and i + 1 < len(ds):
            out.append((None, (i + 1, 0)))
        return out
    return build([(0, 0)], nxt, lambda q: q[0] == len(ds) - 1 and ds[-1].acc[q[1]])

def star_(d):
    def nxt(q):
        out = [(c, t) for c, t in d.tr[q].items()] if q != -1 else [(None, 0)]
        if q != -1 and d.acc[q]:
            out.append((None, -1))
        return out
    return build([-1], nxt, lambda q: q == -1)

def wrap(pre, d, post):
    """pre-markers before the word, post-markers at the end of it (d has no END)"""
    parts = ([mark(m) for m in pre]) + [d] + [mark(m) for m in post]
    return concat(*parts)

def mark(m):
    return D([{m: 1}, {}], [False, True])

def subset(a, b):
    """None if a is included in b, else a shortest word of a that is not in b"""
    seen = {(0, 0): None}
    todo = [(0, 0)]
    for q in todo:
        i, j = q
        if a.acc[i] and (j is None or not b.acc[j]):
            w = []
            while seen[q] is not None:
                s, q = seen[q]
                w.append(s)
            return w[::-1]
        for s, t in sorted(a.tr[i].items(), key=lambda x: repr(x[0])):
            u = None if j is None else b.tr[j].get(s)
            n = (t, u)
            if n not in seen:
                seen[n] = (s, q)
                todo.append(n)
    return None

def shortest(a):
    return subset(a, NONE)

def equal(a, b):
    a, b = minimise(a), minimise(b)
    return subset(a, b) is None and subset(b, a) is None
