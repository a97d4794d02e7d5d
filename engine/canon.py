"""Canonical form of abstract states, subsumption, join and widening.

encode() turns a state into a hashable *shape* in which every linear expression is replaced by a
place holder, plus the vector of those expressions (the leaves).  Cells and unknown symbols are renamed
in order of first occurrence.  Two states with the same shape are compared / joined leaf-wise:
the join keeps exactly the affine relations between leaves that hold in both (so lock-step relations
between program counters and ghost positions survive) and the inequalities of either state that the
other one implies too.
"""
import lin
from fractions import Fraction
from lin import const, add, addc, sub as lsub, scale, is_const
from interp import *
from prog import Unsupported

H = '#'
WINDOW = 3

class Enc:
    def __init__(self, st):
        self.st = st
        self.leaves = []
        self.cells = {}
        self.order = []
        self.roots = {}
        self.cnt = {}
        self.heap = []

    # -- symbols
    def root(self, s):
        """rename a root symbol (name, counter)"""
        r = self.roots.get(s)
        if r is None:
            if isinstance(s, tuple) and len(s) == 2 and isinstance(s[1], int) and s[1] != 0:
                n = self.cnt.get(s[0], 0) + 1
                self.cnt[s[0]] = n
                r = (s[0], -n)
            else:
                r = s
            self.roots[s] = r
        return r

    def sym(self, s):
        if isinstance(s, tuple):
            if s and s[0] in ('.', '*'):
                return (s[0], self.sym(s[1])) + s[2:]
            if s and s[0] == 'elem':
                return ('elem', self.base(s[1]), self.lin(s[2]))
            if s and s[0] == 'cmp':
                return (s[0], s[1], self.sym(s[2]), self.sym(s[3]))
            return self.root(s)
        return s

    def base(self, b):
        return self.sym(b)

    def known(self, s):
        """is the symbol built from roots already encountered?"""
        if isinstance(s, tuple):
            if s and s[0] in ('.', '*'):
                return self.known(s[1])
            if s and s[0] == 'elem':
                return False
            if s and s[0] == 'cmp':
                return self.known(s[2]) and self.known(s[3])
            if len(s) == 2 and isinstance(s[1], int) and s[1] != 0:
                return s in self.roots
        return True

    def lin(self, l):
        self.leaves.append(l)
        return H

    # -- cells
    def cell(self, c):
        if c[0] == 'L':
            return c
        r = self.cells.get(c)
        if r is None:
            if c[0] == 'H':
                r = ('H', -(len(self.order) + 1))
            elif c[0] == 'X':
                r = ('X', self.sym(c[1]))
            else:
                r = c
            self.cells[c] = r
            self.order.append(c)
            i = len(self.heap)
            self.heap.append(None)
            v = self.st.mem.get(c)
            self.heap[i] = (r, None if v is None else self.val(v))
        return r

    def path(self, p):
        return tuple(('ix', self.lin(x[1])) if x[0] == 'ix' else x for x in p)

    def val(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k == 'i':
            l = v[1]
            if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1 and isinstance(l[1][0][0], tuple) and l[1][0][0][0] == 'B':
                s = l[1][0][0]
                return ('iB', self.base(s[1]), self.lin(s[2]))
            return ('i', self.lin(l))
        if k == 'L':
            return ('L', self.lin(v[1]))
        if k == 'b':
            return ('b', self.cond(v[1]))
        if k == 'A':
            return ('A', v[1], v[2], tuple(self.val(x) for x in v[3]))
        if k == 'R':
            return ('R', self.cell(v[1]), self.path(v[2]))
        if k == 'V':
            return ('V', self.val(v[1]))
        if k in 'SQ':
            return (k, tuple(self.seg(s) for s in v[1]))
        if k == 'O':
            return ('O', v[1], self.sym(v[2]))
        if k == 'D':
            return ('D', v[1], self.sym(v[2]), v[3])
        if k == 'N':
            if v[1] == 'box':
                return ('N', 'box', (self.cell(v[2][0]),) + tuple(self.val(x) for x in v[2][1:]))
            return ('N', v[1], tuple(self.val(x) for x in v[2]))
        if k == 'T':
            return ('T',) + tuple(self.val(x) for x in v[1:])
        if k == 'Y':      # a symbol / base held by ghost state
            return ('Y', self.sym(v[1]))
        return v

    def seg(self, s):
        if s[0] == 'sub':
            return ('sub', self.base(s[1]), self.lin(s[2]), self.lin(s[3]))
        if s[0] == 'byt':
            return ('byt', self.lin(s[1]))
        if s[0] == 'el':
            return ('el', self.val(s[1]))
        return s

    def cond(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k in ('ge', 'eq', 'ne'):
            return (k, self.lin(c[1]))
        if k == 'in':
            return ('in', self.base(c[1]), self.lin(c[2]), c[3])
        if k == 'not':
            return ('not', self.cond(c[1]))
        if k in ('and', 'or'):
            return (k, self.cond(c[1]), self.cond(c[2]))
        if k == 'sym':
            return ('sym', self.sym(c[1]))
        if k == 'var':
            return ('var', self.sym(c[1]), c[2])
        return c


def encode(st):
    e = Enc(st)
    fr = []
    byd = {}
    for k in st.mem:
        if k[0] == 'L':
            byd.setdefault(k[1], []).append(k[2])
    loc = []
    for d, f in enumerate(st.frames):
        dest = None if f[2] is None else (e.cell(f[2][0]), e.path(f[2][1]))
        fr.append((f[0], f[1], dest, f[3], None if f[4] is None else e.val(f[4])))
        for i in sorted(byd.get(d, ()), key=lambda x: (isinstance(x, str), x)):
            loc.append((('L', d, i), e.val(st.mem[('L', d, i)])))
    gh = tuple((k, e.val(v)) for k, v in sorted(st.gh.items()))
    # facts on encountered unknowns
    vf = tuple(sorted(((e.sym(s), i) for s, i in st.vf.items() if e.known(s)), key=repr))
    bf = tuple(sorted(((e.sym(s), i) for s, i in st.bf.items() if e.known(s)), key=repr))
    # rigid numeric unknowns
    on = set()
    def os_(l):
        for s, _ in l[1]:
            if isinstance(s, tuple):
                if s[0] == 'o':
                    if e.known(s[1]):
                        on.add(s)
                elif s[0] == 'B':
                    os_(s[2])
    for l in list(e.leaves):
        os_(l)
    for c in st.cons:
        os_(c)
    rig = []
    e.rig0 = len(e.leaves)
    for s in sorted(on, key=lambda s: repr(e.sym(s[1]))):
        rig.append(('o', e.sym(s[1])))
        e.lin(lin.sym(s))
    e.rig1 = len(e.leaves)
    ret = None if st.ret is None else e.val(st.ret)
    # memory behind unknown references that was modified
    xs = []
    more = True
    while more:
        more = False
        for c in sorted((c for c in st.mem if c[0] == 'X' and c not in e.cells and e.known(c[1])), key=repr):
            v = st.mem[c]
            if c in e.cells or (v[0] == 'O' and v[2] == ('*', c[1])):
                continue
            xs.append(e.cell(c))
            more = True
    shape = (tuple(fr), tuple(loc), gh, vf, bf, tuple(rig), ret, tuple(xs), tuple(e.heap))
    return shape, e


def decode(shape, leaves, st0):
    """rebuild a state; traverses in exactly the order of encode"""
    frs, loc, gh, vf, bf, rig, ret, xs, heap = shape
    hm = dict(heap)
    it = iter(leaves)
    mem = {}
    done = {}

    def L():
        return next(it)

    def sym(s):
        if isinstance(s, tuple) and s:
            if s[0] in ('.', '*'):
                return (s[0], sym(s[1])) + s[2:]
            if s[0] == 'elem':
                b = sym(s[1])
                return ('elem', b, L())
            if s[0] == 'cmp':
                a = sym(s[2])
                return (s[0], s[1], a, sym(s[3]))
        return s

    def cell(c):
        if c[0] == 'L':
            return c
        n = done.get(c)
        if n is None:
            n = ('X', sym(c[1])) if c[0] == 'X' else c
            done[c] = n
            v = hm[c]
            if v is not None:
                mem[n] = val(v)
        return n

    def path(p):
        return tuple(('ix', L()) if x[0] == 'ix' else x for x in p)

    def val(v):
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k == 'i':
            return ('i', L())
        if k == 'iB':
            b = sym(v[1])
            return ('i', lin.sym(('B', b, L())))
        if k == 'L':
            return ('L', L())
        if k == 'b':
            return ('b', cond(v[1]))
        if k == 'A':
            return ('A', v[1], v[2], tuple([val(x) for x in v[3]]))
        if k == 'R':
            c = cell(v[1])
            return ('R', c, path(v[2]))
        if k == 'V':
            return ('V', val(v[1]))
        if k in 'SQ':
            return (k, tuple([seg(s) for s in v[1]]))
        if k == 'O':
            return ('O', v[1], sym(v[2]))
        if k == 'D':
            return ('D', v[1], sym(v[2]), v[3])
        if k == 'N':
            if v[1] == 'box':
                c = cell(v[2][0])
                return ('N', 'box', (c,) + tuple([val(x) for x in v[2][1:]]))
            return ('N', v[1], tuple([val(x) for x in v[2]]))
        if k == 'T':
            return ('T',) + tuple([val(x) for x in v[1:]])
        if k == 'Y':
            return ('Y', sym(v[1]))
        return v

    def seg(s):
        if s[0] == 'sub':
            b = sym(s[1])
            x = L()
            return ('sub', b, x, L())
        if s[0] == 'byt':
            return ('byt', L())
        if s[0] == 'el':
            return ('el', val(s[1]))
        return s

    def cond(c):
        if c is True or c is False:
            return c
        k = c[0]
        if k in ('ge', 'eq', 'ne'):
            return (k, L())
        if k == 'in':
            b = sym(c[1])
            return ('in', b, L(), c[3])
        if k == 'not':
            return ('not', cond(c[1]))
        if k in ('and', 'or'):
            a = cond(c[1])
            return (k, a, cond(c[2]))
        if k == 'sym':
            return ('sym', sym(c[1]))
        if k == 'var':
            return ('var', sym(c[1]), c[2])
        return c

    st = St()
    st.ip = st0.ip
    st.trace = st0.trace
    st.entry = st0.entry
    frames = []
    byd = {}
    for (c, v) in loc:
        byd.setdefault(c[1], []).append((c, v))
    for d, f in enumerate(frs):
        dest = None
        if f[2] is not None:
            c = cell(f[2][0])
            dest = (c, path(f[2][1]))
        frames.append((f[0], f[1], dest, f[3], None if f[4] is None else val(f[4])))
        for c, v in byd.get(d, ()):
            mem[c] = val(v)
    st.frames = tuple(frames)
    st.mem = mem
    st.gh = {k: val(v) for k, v in gh}
    st.vf = {sym(s): i for s, i in vf}
    st.bf = {sym(s): i for s, i in bf}
    for r in rig:
        L()
    st.ret = None if ret is None else val(ret)
    for c in xs:
        cell(c)
    st.cons = frozenset()
    st.bm = {}
    return st


# ---------------------------------------------------------------- affine algebra
class Basis:
    """incremental basis of vectors (dict key->Fraction); expresses new vectors in already chosen ones"""
    def __init__(self):
        self.rows = []       # (pivot, vector, combination over chosen leaf indices)

    def reduce(self, v, comb):
        v = dict(v)
        comb = dict(comb)
        for piv, rv, rc in self.rows:
            k = v.get(piv)
            if k:
                for a, b in rv.items():
                    x = v.get(a, 0) - k * b
                    if x:
                        v[a] = x
                    else:
                        v.pop(a, None)
                for a, b in rc.items():
                    x = comb.get(a, 0) - k * b
                    if x:
                        comb[a] = x
                    else:
                        comb.pop(a, None)
        return v, comb

    def insert(self, v, comb):
        piv = min(v, key=lambda k: (repr(k)))
        k = v[piv]
        v = {a: Fraction(b) / k for a, b in v.items()}
        comb = {a: Fraction(b) / k for a, b in comb.items()}
        rows = []
        for p2, rv, rc in self.rows:
            q = rv.get(piv)
            if q:
                rv = dict(rv)
                rc = dict(rc)
                for a, b in v.items():
                    x = rv.get(a, 0) - q * b
                    if x:
                        rv[a] = x
                    else:
                        rv.pop(a, None)
                for a, b in comb.items():
                    x = rc.get(a, 0) - q * b
                    if x:
                        rc[a] = x
                    else:
                        rc.pop(a, None)
            rows.append((p2, rv, rc))
        rows.append((piv, v, comb))
        self.rows = rows


def vec(ls):
    """vector of one or two linear expressions over disjoint symbol spaces; constants apart"""
    d = {}
    for side, l in enumerate(ls):
        if l[0]:
            d[('c', side)] = Fraction(l[0])
        for s, k in l[1]:
            d[(side, s)] = Fraction(k)
    return d

def content(ls):
    """the greatest step in which a leaf can vary"""
    from math import gcd
    g = 0
    for l in ls:
        g = gcd(g, l[0] - ls[0][0])
        for _, k in l[1]:
            g = gcd(g, k)
    return g

def param(leaves, rig_from, names, freshname):
    """leaves: list of tuples of Lins (one per state).  Returns (newleaves, basis) where basis is a list
    of (newsym, leafindex).  The constant vector is always in the basis."""
    B = Basis()
    n = len(leaves[0]) if leaves else 1
    one = {('c', i): Fraction(1) for i in range(n)}
    B.insert(one, {'1': Fraction(1)})
    order = sorted(range(len(leaves)), key=lambda i: (0 if i in names else 1,
                                                      max(len(l[1]) for l in leaves[i]), content(leaves[i]), i))
    out = [None] * len(leaves)
    basis = []
    syms = {}
    eqs = []
    for i in order:
        v, comb = B.reduce(vec(leaves[i]), {i: Fraction(1)})
        if not v:
            # leaf_i = -(sum of the others)
            k = comb.pop(i)
            integral = all((-c / k).denominator == 1 for c in comb.values())
            if integral:
                l = const(0)
                for j, c in comb.items():
                    c = int(-c / k)
                    l = addc(l, c) if j == '1' else add(l, scale(syms[j], c))
                out[i] = l
                continue
            s = names[i] if i in names else ('n', 'v', freshname())
            out[i] = lin.sym(s)
            den = 1
            for c in list(comb.values()) + [k]:
                den = den * c.denominator // __import__('math').gcd(den, c.denominator)
            e = scale(out[i], int(k * den))
            for j, c in comb.items():
                c = int(c * den)
                e = addc(e, c) if j == '1' else add(e, scale(syms[j], c))
            eqs.append(e)
            basis.append((s, i))
            syms[i] = out[i]
            continue
        s = names[i] if i in names else ('n', 'v', freshname())
        out[i] = lin.sym(s)
        syms[i] = out[i]
        basis.append((s, i))
        B.insert(v, comb)
    return out, basis, eqs

def rel_cons(cons, leaves):
    """constraints connected with the leaves"""
    want = set()
    def w(l):
        for s, _ in l[1]:
            want.add(s)
    for l in leaves:
        w(l)
    cs = list(cons)
    out = []
    ch = True
    while ch and cs:
        ch = False
        rest = []
        for c in cs:
            if any(s in want for s, _ in c[1]):
                out.append(c)
                w(c)
                ch = True
            else:
                rest.append(c)
        cs = rest
    return out

def translate(cons, basis, leaves):
    """constraints over the old symbols, projected on the new basis symbols (newsym = leaf)"""
    cs = rel_cons(cons, [leaves[i] for _, i in basis])
    # rename new symbols apart from the old ones
    tmp = {}
    eqs = []
    for s, i in basis:
        t = ('new', s)
        tmp[t] = lin.sym(s)
        eqs.append(lsub(lin.sym(t), leaves[i]))
    # solve old symbols with unit coefficient
    sol = {}
    todo = list(eqs)
    rest = []
    while todo:
        e = todo.pop(0)
        e = lin.subst(e, sol)
        best = None
        for s, k in e[1]:
            if s not in tmp and abs(k) == 1:
                best = (s, k)
                break
        if best is None:
            rest.append(e)
            continue
        s, k = best
        r = (e[0], tuple(x for x in e[1] if x[0] != s))
        val = scale(r, -1) if k == 1 else r
        sol = {a: lin.subst(b, {s: val}) for a, b in sol.items()}
        sol[s] = val
    cs2 = [lin.subst(c, sol) for c in cs]
    for e in rest:
        e = lin.subst(e, sol)
        cs2 += [e, scale(e, -1)]
    cs2 = lin.simplify(cs2)
    if cs2 is None:
        return None
    cs2 = lin.project(cs2, set(tmp))
    if cs2 is None:
        return None
    return frozenset(lin.tighten(lin.subst(c, tmp)) for c in cs2)

def reduce_cons(cs):
    """drop redundant constraints"""
    cs = sorted(cs, key=lambda c: (len(c[1]), abs(c[0]), repr(c)))
    if len(cs) > 60:
        return frozenset(cs)
    out = list(cs)
    for c in reversed(cs):
        rest = frozenset(x for x in out if x is not c)
        if lin.entails(rest, c):
            out = [x for x in out if x is not c]
    return frozenset(out)

def axioms(names):
    """what holds of the named quotients in every state"""
    out = set()
    for s in names:
        if isinstance(s, tuple) and len(s) == 2 and s[0] == 'o' and isinstance(s[1], tuple) and s[1][0] == 'quot':
            d = lsub(s[1][1], scale(lin.sym(s), s[1][2]))
            out |= {d, addc(scale(d, -1), s[1][2] - 1)}
    return frozenset(out)

class Entry:
    __slots__ = ('shape', 'leaves', 'cons', 'bm', 'joins', 'map', 'hits', 'ptr')

class Table:
    def __init__(self, ip):
        self.ip = ip
        self.tab = {}
        self.extra = 0

    def fresh(self):
        self.ip.counter += 1
        return self.ip.counter

    def prune(self, st):
        """remove dead locals"""
        prog = self.ip.prog
        n = len(st.frames)
        keep = []
        for d, f in enumerate(st.frames):
            if not isinstance(f[0], int):
                keep.append(None)
                continue
            b = prog.bodies[f[0]]
            if d == n - 1:
                l = b.live_in[f[1]]
            else:
                nx = st.frames[d + 1]
                # resume point of this frame
                t = nx[3]
                l = b.live_in[t] if t is not None else set()
                if nx[4] is not None and t is None:
                    l = b.live_in[f[1]]
            keep.append(l | b.addr)
        dead = []
        for k in st.mem:
            if k[0] == 'L':
                s = keep[k[1]]
                if s is not None and k[2] not in s:
                    dead.append(k)
        for k in dead:
            del st.mem[k]

    def visit(self, st):
        ip = self.ip
        fr = st.frames[-1]
        self.prune(st)
        norm = getattr(ip.spec, 'normalise', None)
        if norm:
            norm(ip, st)
            if getattr(st, 'dead', False):
                return None
        if isinstance(fr[0], int):
            head = fr[1] in ip.prog.bodies[fr[0]].heads
        else:
            head = True
        shape, e = encode(st)
        key = (shape, bool(st.entry) if head else None)
        leaves = e.leaves
        cur = self.tab.get(key)
        masks = self.masks(st, e)
        if cur is None:
            ent = self.make(st, shape, leaves, masks, e)
            if ent is None:
                return None
            self.tab[key] = [ent]
            self.slot = (key, 0)
            return self.build(ent, st)
        for ent in cur:
            if self.subsumed(st, leaves, masks, ent, e):
                ip.stats['merged'] += 1
                return None
        if not head:
            if len(cur) > ip.max_variants:
                # too many variants of one program point: treat it like a loop head
                pass
            else:
                ent = self.make(st, shape, leaves, masks, e)
                if ent is None:
                    return None
                cur.append(ent)
                self.slot = (key, len(cur) - 1)
                return self.build(ent, st)
        ent = self.join(cur[-1], st, leaves, masks, e)
        if ent is None:
            return None
        cur[-1] = ent
        self.slot = (key, len(cur) - 1)
        ip.stats['joins'] += 1
        if ip.debug:
            print('JOIN', ip.where(st)[-1:], fr[:2], st.entry, 'n', ent.joins, st.gh)
            print('   leaves', [lin.show(l) for l in ent.leaves])
            print('   new   ', [lin.show(l) for l in leaves])
            print('   cons', [lin.show(c) for c in ent.cons])
            print('   stcons', [lin.show(c) for c in st.cons])
            print('   bm', ent.bm)
        if ent.joins > 60:
            raise Unsupported('no fixpoint at %s' % (ip.where(st)[-1:],))
        return self.build(ent, st)

    # byte facts near leaves: {(base', leafindex, offset): mask}
    def masks(self, st, e):
        out = {}
        for (base, pos), m in st.bm.items():
            if not e.known(base) or m == FULL:
                continue
            b = e.sym(base)
            for i, l in enumerate(e.leaves):
                if l[1] == pos[1]:
                    k = pos[0] - l[0]
                    if -WINDOW <= k <= WINDOW:
                        out[(b, i, k)] = m
                elif e.rig0 <= i < e.rig1 and st.ent_eq(lsub(l, pos)):
                    out[(b, i, 0)] = m
        return out

    def names(self, shape, e):
        return (e.rig0, e.rig1), {e.rig0 + j: r for j, r in enumerate(shape[5])}

    def make(self, st, shape, leaves, masks, e):
        rf, names = self.names(shape, e)
        out, basis, eqs = param([(l,) for l in leaves], rf, names, self.fresh)
        cons = translate(st.cons, basis, leaves)
        if cons is None:
            return None
        for q in eqs:
            cons = cons | frozenset([q, scale(q, -1)])
        ent = Entry()
        ent.shape = shape
        ent.leaves = out
        ent.cons = reduce_cons(cons) | axioms(s for s, _ in basis)
        ent.bm = masks
        ent.joins = 0
        ent.map = basis
        return ent

    def build(self, ent, st0):
        st = decode(ent.shape, ent.leaves, st0)
        st.cons = ent.cons
        for (b, i, k), m in ent.bm.items():
            p = addc(ent.leaves[i], k)
            key = (b, p)
            o = st.bm.get(key, FULL)
            st.bm[key] = o & m
        return st

    def subsumed(self, st, leaves, masks, ent, e):
        m = {}
        for s, i in ent.map:
            m[('new', s)] = leaves[i]
        ren = {s: lin.sym(('new', s)) for s, _ in ent.map}
        def tr(l):
            return lin.subst(lin.subst(l, ren), m)
        for i, l in enumerate(ent.leaves):
            d = lsub(tr(l), leaves[i])
            if d != lin.ZERO:
                if not d[1] or not st.ent_eq(d):
                    return False
        for c in ent.cons:
            if not st.ent(tr(c)):
                return False
        inv = None
        for key, mk in ent.bm.items():
            b, i, k = key
            m2 = masks.get(key)
            if m2 is None:
                if inv is None:
                    inv = {}
                    for (base, pos) in st.bm:
                        if e.known(base):
                            inv.setdefault(e.sym(base), set()).add(base)
                m2 = FULL
                for base in inv.get(b, ()):
                    m2 &= st.bmask(base, addc(leaves[i], k))
            if m2 & ~mk:
                return False
        return True

    def join(self, ent, st, leaves, masks, e):
        rf, names = self.names(ent.shape, e)
        # state 1 = ent (symbols renamed apart), state 2 = st
        ren = {}
        def apart(l):
            m = {}
            for s, _ in l[1]:
                m[s] = lin.sym(('old', s))
            return lin.subst(l, m)
        l1 = [apart(l) for l in ent.leaves]
        c1 = frozenset(apart(c) for c in ent.cons)
        out, basis, eqs = param(list(zip(l1, leaves)), rf, names, self.fresh)
        t1 = translate(c1, basis, l1)
        t2 = translate(st.cons, basis, leaves)
        if t1 is None:
            t1 = frozenset([const(-1)])
        if t2 is None:
            return None
        widen = ent.joins >= self.ip.widen_at
        cons = set()
        cand = set()
        for c in t1:
            cand.add(c)
        if not widen:
            for c in t2:
                cand.add(c)
        # templates: bounds of and differences between basis symbols, constants from a fixed finite
        # set, so that only finitely many can ever be lost (termination of the widening)
        # (bounds of and differences between the quantities the state holds)
        forms = {}
        for s_, _ in basis:
            forms.setdefault(lin.sym(s_)[1], set()).add(0)
        for l in out:
            if l[1] and not any(isinstance(y, tuple) and y[0] == 'B' for y, _ in l[1]):
                forms.setdefault(l[1], set()).add(l[0])
        consts = set(l[0] for l in out if not l[1]) | {0}
        fl = sorted(forms, key=lambda x: (len(x), repr(x)))
        for c in cand:
            if lin.entails(t1, c) and lin.entails(t2, c):
                cons.add(c)
            elif not widen:
                for o in [(c[0] + k, c[1]) for k in (1, 2, 3, 4)]:
                    if lin.entails(t1, o) and lin.entails(t2, o):
                        cons.add(o)
                        break
        fc = frozenset(cons)
        def tpl(d, base):
            l1, l2 = lin.lower(t1, d), lin.lower(t2, d)
            if l1 is None or l2 is None:
                return
            k = min(l1, l2)
            if widen and l2 < l1:
                k = max([y for x in base for y in (x - 2, x - 1, x, x + 1, x + 2) if y <= k], default=None)
                if k is None:
                    return
            o = addc(d, -k)
            if not lin.entails(fc, o):
                cons.add(o)
        for i, x in enumerate(fl):
            ks = set(a - b for a in consts for b in forms[x])
            tpl((0, x), set(-k for k in forms[x]) | ks)
            tpl(scale((0, x), -1), set(-k for k in ks))
            for y in fl[:i]:
                d = lsub((0, x), (0, y))
                if d[1]:
                    ks = set(b - a for a in forms[x] for b in forms[y]) | {0}
                    tpl(d, ks)
                    tpl(scale(d, -1), set(-k for k in ks))
        for q in eqs:
            cons |= {q, scale(q, -1)}
        n = Entry()
        n.shape = ent.shape
        n.leaves = out
        n.cons = reduce_cons(frozenset(cons)) | axioms(s for s, _ in basis)
        n.joins = ent.joins + 1
        n.map = basis
        # masks
        bm = {}
        inv = {}
        for (base, pos) in st.bm:
            if e.known(base):
                inv.setdefault(e.sym(base), set()).add(base)
        for key, mk in ent.bm.items():
            b, i, k = key
            m2 = masks.get(key)
            if m2 is None:
                m2 = FULL
                for base in inv.get(b, ()):
                    m2 &= st.bmask(base, addc(leaves[i], k))
            m = mk | m2
            if m != FULL:
                bm[key] = m
        n.bm = bm
        return n
