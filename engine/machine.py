import heapq
"""Execution of MIR blocks on abstract states, state canonicalisation, joins and the fixpoint loop."""
import lin, os, time, sys
from lin import const, add, addc, sub as lsub, scale, is_const
from interp import *
from prog import Unsupported, Prog

class Violation:
    __slots__ = ('prop', 'rule', 'msg', 'where', 'stack', 'key')
    def __init__(self, prop, rule, msg, where, stack):
        self.prop, self.rule, self.msg, self.where, self.stack = prop, rule, msg, where, stack
    def __repr__(self):
        return '%s[%s] %s at %s' % (self.prop, self.rule, self.msg, self.where)

def fixed(s):
    """a root named by the analysis, not by a counter"""
    while isinstance(s, tuple) and s and s[0] in ('.', '*'):
        s = s[1]
    return isinstance(s, tuple) and len(s) == 2 and s[1] == 0

CELLS = ('std::cell::Cell', 'std::cell::UnsafeCell', 'std::mem::MaybeUninit', 'std::mem::ManuallyDrop')

class Interp:
    def __init__(self, prog, spec, models):
        self.prog = prog
        self.spec = spec
        self.models = models
        self.counter = 0
        self.basemask = {}
        self.pures = {}
        self.puresyms = set()
        self.on_byte = None
        self.elemty = {}
        self.on_agg = None
        self.incomplete = {}
        self.strict = False
        self.violations = []
        self.vkeys = set()
        self.guards = set()     # checks that may abort, passed
        self.stats = dict(states=0, blocks=0, joins=0, calls=0, splits=0, terminals=0, merged=0)
        self.funcs = set()
        self.ext_sites = {}
        self.panics = {}
        self.widen_at = 3
        self.enough = None          # stop early once this says so
        self.max_variants = 40     # states kept apart per program point that heads no loop
        self.max_states = 200000
        self.deadline = None
        self.debug = False

    # ---------- hooks
    def symrank(self, s):
        """elimination preference: derived unknowns last, fresh counters first"""
        if s[0] == 'n':
            return (1, s[2] if isinstance(s[2], int) else 0)
        return (0, 0)

    def opaque_hook(self, st, t, ty, sym):
        return self.spec.opaque(st, t, ty, sym) if hasattr(self.spec, 'opaque') else None

    def new_state(self):
        st = St()
        st.frames = ()
        st.mem = {}
        st.cons = frozenset()
        st.bm = {}
        st.vf = {}
        st.bf = {}
        st.gh = {}
        st.trace = None
        st.ret = None
        st.ip = self
        st.entry = False
        return st

    def where(self, st, span=None):
        out = []
        for f in st.frames:
            if isinstance(f[0], int):
                b = self.prog.bodies[f[0]]
                if b.local:
                    out.append(b.path)
        return out

    def violate(self, st, prop, rule, msg, span=None):
        stack = self.where(st)
        where = span or self.cur_span(st)
        k = (prop, rule, where, msg)
        if k not in self.vkeys:
            self.vkeys.add(k)
            v = Violation(prop, rule, msg, where, stack)
            v.key = '%s|%s|%s' % (prop, rule, '>'.join(stack[-2:]))
            self.violations.append(v)

    def cur_span(self, st):
        for f in reversed(st.frames):
            if isinstance(f[0], int):
                b = self.prog.bodies[f[0]]
                if b.local:
                    t = b.blocks[f[1]][1]
                    sp = t[-1] if isinstance(t[-1], str) and ':' in t[-1] else b.span
                    return sp
        return '?'

    # ---------- frames
    def push(self, st, bodyid, args, dest, target, cont=None):
        """enter a body; args are values of _1.._n"""
        b = self.prog.bodies[bodyid]
        if len(st.frames) > 60:
            raise Unsupported('call depth: ' + b.path)
        self.stats['calls'] += 1
        self.funcs.add(bodyid)
        d = len(st.frames)
        st.frames = st.frames + ((bodyid, 0, dest, target, cont),)
        n = b.argc
        if len(args) != n:
            if b.kind == 'closure' and len(args) == 2 and n >= 1 and args[1][0] == 'A' and len(args[1][3]) == n - 1:
                args = [args[0]] + list(args[1][3])
            else:
                raise Unsupported('arity %s: %d for %d' % (b.path, len(args), n))
        for i, a in enumerate(args):
            st.mem[('L', d, i + 1)] = a
        st.entry = True

    def pop(self, st):
        """return from the top frame with the value in _0"""
        d = len(st.frames) - 1
        fr = st.frames[-1]
        v = st.mem.get(('L', d, 0), UNIT)
        for k in [k for k in st.mem if k[0] == 'L' and k[1] == d]:
            del st.mem[k]
        st.frames = st.frames[:-1]
        return self.finish(st, v, fr[2], fr[3], fr[4])

    def finish(self, st, v, dest, target, cont):
        """a call completed with value v; caller is on top of st.frames"""
        if cont is not None:
            return self.spec_cont(st, v, dest, target, cont)
        if not st.frames:
            st.ret = v
            return [st]
        if target is None:
            return []
        self.setdest(st, dest, v)
        fr = st.frames[-1]
        st.frames = st.frames[:-1] + ((fr[0], target) + fr[2:],)
        st.entry = self.is_back(fr[0], fr[1], target) is False
        return [st]

    def setdest(self, st, dest, v):
        if dest is None:
            return
        cell, path = dest
        st.store(cell, path, v)

    def spec_cont(self, st, v, dest, target, cont):
        # cont: ('T', ('K', name), data...)
        name = cont[1][1]
        f = self.models.conts[name]
        res = f(self, st, v, cont[2:])
        out = []
        for s2, v2 in res:
            if v2 is PUSHED:
                out.append(s2)
            else:
                out.extend(self.finish(s2, v2, dest, target, None))
        return out

    def is_back(self, bodyid, frm, to):
        if not isinstance(bodyid, int):
            return False
        b = self.prog.bodies[bodyid]
        if to not in b.heads:
            return False
        # back edge iff `to` dominates in DFS sense: reachable from `to` back to frm
        return frm in self.loop_of(bodyid, to)

    _loops = None
    def loop_of(self, bodyid, head):
        if self._loops is None:
            self._loops = {}
        k = (bodyid, head)
        if k not in self._loops:
            b = self.prog.bodies[bodyid]
            # nodes that can reach head
            preds = {}
            for i, (_, t) in enumerate(b.blocks):
                for x in Prog.succs(t):
                    preds.setdefault(x, []).append(i)
            fwd = set()
            w = [head]
            while w:
                x = w.pop()
                for y in Prog.succs(b.blocks[x][1]):
                    if y not in fwd:
                        fwd.add(y)
                        w.append(y)
            bwd = set()
            w = [head]
            while w:
                x = w.pop()
                for y in preds.get(x, ()):
                    if y not in bwd:
                        bwd.add(y)
                        w.append(y)
            self._loops[k] = fwd & bwd
        return self._loops[k]

    # ---------- places & operands
    def place(self, st, p, d):
        """resolve a place to (cell, path)"""
        cell, path = ('L', d, p[0]), ()
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = st.load(cell, path)
                r = self.as_cell(st, v)
                if r is None:
                    # immutable snapshot: give it a temporary cell
                    if v[0] == 'V' or v[0] == 'A':
                        inner = st.deref(v)
                        self.counter += 1
                        c = ('H', self.counter)
                        st.mem[c] = inner
                        cell, path = c, ()
                        continue
                    raise Unsupported('deref place of %s' % show(v))
                cell, path = r
            elif k == 'i':
                iv = st.loadcell(('L', d, e[1]))
                path = path + (('ix', iv[1]),)
            else:
                path = path + (e,)
        return cell, path

    def as_cell(self, st, v):
        if v[0] == 'R':
            return v[1], v[2]
        if v[0] == 'N' and v[1] == 'box':
            return v[2][0], ()
        if v[0] == 'O':
            return st.ocell(v), ()
        if v[0] == 'A' and v[3]:
            return self.as_cell(st, v[3][0])
        return None

    def readplace(self, st, p, d):
        v = st.loadcell(('L', d, p[0]))
        for e in p[1]:
            if e[0] == 'i':
                v = st.index(v, st.loadcell(('L', d, e[1]))[1])
            else:
                v = st.proj(v, e)
        if v[0] == 'D':
            v = ('O', v[1], v[2])
        return v

    def operand(self, st, o, d):
        k = o[0]
        if k == 'c':
            return self.readplace(st, o[1], d)
        if k == 'm':
            v = self.readplace(st, o[1], d)
            if not o[1][1]:
                st.mem[('L', d, o[1][0])] = U
            return v
        if k == 'k':
            return self.konst(st, o[2], o[1])
        return ('b', False)     # runtime checks (UbChecks etc.) off

    def konst(self, st, c, ty=None):
        k = c[0]
        if k == 'i':
            return ('i', const(c[1]))
        if k == 'b':
            return ('b', c[1])
        if k == 'bytes':
            return ('S', (('lit', c[1]),) if c[1] else ())
        if k == 'ref':
            return ('V', self.konst(st, c[1]))
        if k == 'zst':
            if ty is not None:
                t = self.prog.types[ty]
                if t['k'] == 'adt':
                    return ('A', ty, 0, tuple(self.konst(st, ('zst',), f['t']) for f in t['v'][0]['f']) if t['v'] else ())
                if t['k'] == 'closure':
                    return ('A', ty, 0, ())
                if t['k'] == 'array':
                    return ('S', ()) if self.prog.types[t['e']].get('n') == 'u8' else ('A', ty, 0, ())
            return UNIT
        if k == 'adt':
            fs = c[2]
            if ty is not None:
                t = self.prog.types[ty]
                if t['k'] == 'adt' and c[1] < len(t['v']):
                    ft = t['v'][c[1]]['f']
                    if len(ft) == len(fs):
                        return ('A', ty, c[1], tuple(self.konst(st, x, f['t']) for x, f in zip(fs, ft)))
            return ('A', ty, c[1], tuple(self.konst(st, x) for x in fs))
        if k in ('arr', 'tup'):
            return ('A', ty, 0, tuple(self.konst(st, x) for x in c[1]))
        if k == 'fn':
            return ('F', c[1])
        if k == 'fnptr':
            b = self.prog.bykey.get((c[1], c[2]))
            if b is None:
                return ('O', ty, ('fnptr', 0))
            return ('FB', b)
        # unknown constant: a rigid unknown
        return st.opaque(ty, ('const', repr(c)[:120], 0))

    # ---------- rvalues
    def rvalue(self, st, r, d, destty):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1], d)
        if k == 'ref':
            kind, p = r[1], r[2]
            # reborrow of an immutable snapshot stays a snapshot
            for i in range(len(p[1]) - 1, -1, -1):
                if p[1][i][0] == '*':
                    base = self.readplace(st, (p[0], p[1][:i]), d)
                    if base[0] == 'V':
                        v = base[1]
                        for e in p[1][i + 1:]:
                            v = st.index(v, st.loadcell(('L', d, e[1]))[1]) if e[0] == 'i' else st.proj(v, e)
                        return ('V', v)
                    if i == len(p[1]) - 1 and base[0] == 'R':
                        return base
                    if i == len(p[1]) - 1 and base[0] == 'O':
                        return base
                    if i == len(p[1]) - 1 and base[0] == 'N' and base[1] != 'box':
                        return base
                    break
            if any(e[0] == 'sub' for e in p[1]):
                return ('V', self.readplace(st, p, d))
            cell, path = self.place(st, p, d)
            return ('R', cell, path)
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, r[2], d), self.operand(st, r[3], d), destty)
        if k == 'un':
            v = self.operand(st, r[2], d)
            if r[1] == 'Not':
                if v[0] == 'b':
                    return ('b', neg(v[1]))
                return ('i', st.fresh('not', None))
            if r[1] == 'Neg':
                return ('i', scale(v[1], -1))
            if r[1] == 'PtrMetadata':
                if v[0] in ('V', 'R', 'O'):
                    return ('i', st.seqlen(st.deref(v)))
                if v[0] == 'A':
                    return ('i', const(len(v[3])))
            raise Unsupported('unop %s %s' % (r[1], show(v)))
        if k == 'discr':
            loc = r[1]
            if not loc[1] and ('L', d, loc[0]) not in st.mem:
                # a value of an enum with a single possible variant may never be written
                v = self.sole_variant(self.prog.bodies[st.frames[-1][0]].locals[loc[0]])
                if v is not None:
                    return ('i', const(v))
            v = self.readplace(st, r[1], d)
            return self.discr(st, v)
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, r[2], d), r[3])
        if k == 'agg':
            a = r[1]
            vs = tuple(self.operand(st, x, d) for x in r[2])
            if a[0] == 'array':
                t = self.prog.types[a[1]]
                if t.get('n') == 'u8' or (t.get('k') == 'array' and self.prog.types[t['e']].get('n') == 'u8'):
                    return ('S', st.mergesegs(tuple(('byt', v[1]) for v in vs)))
                return ('A', None, 0, vs)
            if a[0] == 'adt':
                if self.on_agg is not None:
                    self.on_agg(st, a[1], a[2], vs)
                return ('A', a[1], a[2], vs)
            if a[0] == 'rawptr':
                return vs[0]
            if a[0] in ('closure', 'coroutine'):
                return ('A', a[1], 0, vs)
            return ('A', None, 0, vs)
        if k == 'repeat':
            v = self.operand(st, r[1], d)
            n = r[2]
            if isinstance(n, int) and n <= 4096:
                if v[0] == 'i' and is_const(v[1]) and 0 <= v[1][0] < 256:
                    return ('S', (('lit', bytes([v[1][0]]) * n),) if n else ())
                return ('A', None, 0, (v,) * n)
        raise Unsupported('rvalue %r' % (r[:2],))

    def discr(self, st, v):
        var = st.variant_of(v)
        ty = v[1]
        if ty is not None:
            t = self.prog.types[ty]
            if t.get('ak') == 'enum' and var < len(t['v']):
                return ('i', const(t['v'][var]['d']))
        return ('i', const(var))

    def cast(self, st, kind, v, ty):
        t = self.prog.types[ty]
        if kind == 'IntToInt':
            if v[0] == 'b':
                r = st.ev(v[1])
                if r is None:
                    raise Split([v[1], ('not', v[1])])
                return ('i', const(1 if r else 0))
            if v[0] == 'A' or v[0] == 'O':
                v = self.discr(st, v)
            rng = INTR.get(t.get('n'))
            if rng is None:
                return v
            lo, hi = rng
            if st.ent(addc(v[1], -lo)) and st.ent(addc(scale(v[1], -1), hi)):
                return v
            if is_const(v[1]):
                m = hi - lo + 1
                return ('i', const((v[1][0] - lo) % m + lo))
            if lo == 0 and hi in (255, 65535, 2**32 - 1) and st.ent(v[1]):
                m = hi + 1
                q = st.fresh('trunc', 0)
                x = lsub(v[1], scale(q, m))
                st.assume(('ge', x))
                st.assume(('ge', addc(scale(x, -1), hi)))
                return ('i', x)
            return ('i', st.fresh('cast', lo, hi))
        if kind.startswith('coerce:Unsize'):
            if v[0] == 'R':
                return v
            return v
        if kind == 'PtrToPtr' and v[0] == 'R' and t['k'] == 'ptr':
            # from a cell to what is in it
            for _ in range(3):
                try:
                    w = st.load(v[1], v[2])
                except Unsupported:
                    break
                if w[0] != 'A' or w[1] is None or w[1] == t['e'] or self.prog.types[w[1]].get('p') not in CELLS:
                    break
                v = ('R', v[1], v[2] + (('f', 0, None),))
        if kind.startswith('coerce') or kind == 'PtrToPtr' or kind.startswith('FnPtr'):
            return v
        if kind in ('Transmute', 'BoxDerefTransmute'):
            if v[0] == 'N' and v[1] == 'box' and t['k'] in ('ptr', 'ref'):
                return ('R', v[2][0], ())
            return v
        raise Unsupported('cast %s' % kind)

    def cmpc(self, st, op, a, b):
        d = lsub(a, b)
        # a single byte against a constant: byte mask
        if len(d[1]) == 1 and isinstance(d[1][0][0], tuple) and d[1][0][0][0] == 'B' and abs(d[1][0][1]) == 1:
            s, k = d[1][0]
            c = d[0]
            f = {'Eq': lambda x: x == 0, 'Ne': lambda x: x != 0, 'Lt': lambda x: x < 0, 'Le': lambda x: x <= 0,
                 'Gt': lambda x: x > 0, 'Ge': lambda x: x >= 0}[op]
            return ('in', s[1], s[2], mask_of(lambda y: f(k * y + c)))
        if is_const(d):
            f = {'Eq': d[0] == 0, 'Ne': d[0] != 0, 'Lt': d[0] < 0, 'Le': d[0] <= 0, 'Gt': d[0] > 0, 'Ge': d[0] >= 0}[op]
            return f
        if op == 'Eq':
            return ('eq', d)
        if op == 'Ne':
            return ('ne', d)
        if op == 'Ge':
            return ('ge', d)
        if op == 'Gt':
            return ('ge', addc(d, -1))
        if op == 'Le':
            return ('ge', scale(d, -1))
        if op == 'Lt':
            return ('ge', addc(scale(d, -1), -1))

    def binop(self, st, op, a, b, ty):
        if a[0] == 'b' and b[0] == 'b':
            x, y = a[1], b[1]
            if op == 'BitAnd':
                return ('b', cand(x, y))
            if op == 'BitOr':
                return ('b', cor(x, y))
            if op == 'Eq':
                return ('b', cor(cand(x, y), cand(neg(x), neg(y))))
            if op in ('Ne', 'BitXor'):
                return ('b', cor(cand(x, neg(y)), cand(neg(x), y)))
        if a[0] in ('R', 'V', 'N') or b[0] in ('R', 'V', 'N'):
            if op in ('Eq', 'Ne'):
                # identity of memory places
                if a[0] == 'R' and b[0] == 'R':
                    r = (a == b)
                    return ('b', r if op == 'Eq' else not r)
                return ('b', ('sym', st.freshsym('ptreq')))
            raise Unsupported('pointer op %s' % op)
        if a[0] == 'O' or b[0] == 'O':
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                if op == 'Eq' and a == b:
                    return ('b', True)
                return ('b', ('sym', ('cmp', op, a[2] if a[0] == 'O' else 0, b[2] if b[0] == 'O' else 0)))
        if a[0] != 'i' or b[0] != 'i':
            raise Unsupported('binop %s %s %s' % (op, show(a), show(b)))
        x, y = a[1], b[1]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return ('b', self.cmpc(st, op, x, y))
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        t = self.prog.types[ty] if ty is not None else None
        it = None
        if t is not None:
            if t['k'] == 'tuple':
                it = self.prog.types[t['f'][0]].get('n')
            else:
                it = t.get('n')
        lo, hi = INTR.get(it, (0, USIZE_MAX))
        r = None
        if base == 'Add':
            r = add(x, y)
        elif base == 'Sub':
            r = lsub(x, y)
        elif base == 'Mul':
            if is_const(x):
                r = scale(y, x[0])
            elif is_const(y):
                r = scale(x, y[0])
            else:
                r = st.pure(('mul', x, y), 'mul', lo if lo >= 0 else None)
        elif base in ('Div', 'Rem'):
            if is_const(y) and y[0] > 0 and st.ent(x):
                if is_const(x):
                    return ('i', const(x[0] // y[0] if base == 'Div' else x[0] % y[0]))
                q = self.quotient(st, x, y[0])
                return ('i', q if base == 'Div' else lsub(x, scale(q, y[0])))
            return ('i', st.pure((base, x, y, lo, hi), base.lower(), lo if lo >= 0 else None))
        elif base in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            if is_const(x) and is_const(y):
                f = {'BitAnd': x[0] & y[0], 'BitOr': x[0] | y[0], 'BitXor': x[0] ^ y[0],
                     'Shl': x[0] << min(y[0], 200), 'Shr': x[0] >> y[0]}[base]
                return ('i', const((f - lo) % (hi - lo + 1) + lo))
            # a single byte combined with a constant: keep the exact relation through a case split on the byte class
            z = st.pure((base, x, y, lo, hi), base.lower(), lo if lo >= 0 else None, hi if hi < 2**40 else None)
            if base == 'BitAnd' and is_const(y) and y[0] >= 0:
                st.assume(('ge', addc(scale(z, -1), y[0])))
            return ('i', z)
        elif base == 'Offset':
            raise Unsupported('pointer offset')
        if r is None:
            raise Unsupported('binop %s' % op)
        if 'WithOverflow' in op:
            over = cor(self.cmpc(st, 'Lt', r, const(lo)), self.cmpc(st, 'Gt', r, const(hi)))
            if st.ent(addc(r, -lo)) and (hi >= ISIZE_MAX or st.ent(addc(scale(r, -1), hi))):
                over = False    # lengths and positions are far below the machine word limit
            elif hi >= ISIZE_MAX:
                over = self.cmpc(st, 'Lt', r, const(lo))
            return ('A', None, 0, (('i', r), ('b', over)))
        if op.endswith('Unchecked') or (st.ent(addc(r, -lo)) and (hi >= ISIZE_MAX or st.ent(addc(scale(r, -1), hi)))):
            return ('i', r)
        # wrapping arithmetic
        return ('i', st.pure(('wrap', r, lo, hi), 'wrap', lo if lo >= 0 else None, hi if hi < 2**40 else None))

    def quotient(self, st, x, k):
        """floor(x / k) for x >= 0: an expression already known to be it, or a new symbol"""
        if st.ent(addc(scale(x, -1), k - 1)):
            return const(0)
        def isq(e):
            r = lsub(x, scale(e, k))
            return st.ent(r) and st.ent(addc(scale(r, -1), k - 1))
        for c in st.cons:
            d = lsub(x, c)
            if all(v % k == 0 for _, v in d[1]):
                e = (d[0] // k, tuple((s, v // k) for s, v in d[1]))
                if isq(e):
                    return e
        if x[1] and all(s[0] == 'o' and fixed(s[1]) for s, _ in x[1]):
            # a quantity of the input itself: it keeps its name, and what is known of it, across joins
            q = lin.sym(('o', ('quot', x, k)))
            st.cons = st.cons | frozenset([q])
        else:
            q = st.pure(('quot', x, k), 'div', 0)
        st.cons = st.cons | frozenset([lsub(x, scale(q, k)), addc(lsub(scale(q, k), x), k - 1)])
        return q

    def sole_variant(self, ty):
        t = self.prog.types[ty]
        if t['k'] != 'adt' or t.get('ak') != 'enum':
            return None
        def void(i):
            x = self.prog.types[i]
            return x['k'] == 'never' or (x['k'] == 'adt' and x.get('ak') == 'enum' and not x['v'])
        vs = [v for v in t['v'] if not any(void(f['t']) for f in v['f'])]
        return vs[0]['d'] if len(vs) == 1 and not vs[0]['f'] else None

    # ---------- block execution
    def cases(self, st, alt):
        """the states with an assumption, told apart as far as it needs"""
        out = self.cases_(st, alt, 0)
        for s in out:
            s.slog = None
        return out

    def cases_(self, st, alt, depth):
        s = st.copy()
        s.slog = ()
        try:
            return [s] if s.assume(alt) else []
        except Infeasible:
            return []
        except Split as e:
            if depth > 8:
                raise Unsupported('nested case split')
            out = []
            for a in e.alts:
                for t in self.cases_(st, a, depth + 1):
                    # symbols may have got another name
                    log = t.slog
                    for u in self.cases_(t, renamed(alt, log), depth + 1):
                        u.slog = log + u.slog
                        out.append(u)
            return out

    def step(self, st):
        out = []
        work = [st]
        n = 0
        while work:
            s = work.pop()
            try:
                out.extend(self.block(s.copy()))
            except Split as e:
                self.stats['splits'] += 1
                n += 1
                if n > 5000:
                    raise Unsupported('cases without end')
                for alt in e.alts:
                    work.extend(self.cases(s, alt))
            except Infeasible:
                pass
        return out

    def block(self, st):
        fr = st.frames[-1]
        if not isinstance(fr[0], int):
            return self.models.native_frame(self, st)
        self.stats['blocks'] += 1
        b = self.prog.bodies[fr[0]]
        d = len(st.frames) - 1
        stmts, t = b.blocks[fr[1]]
        for s in stmts:
            k = s[0]
            if k == '=':
                p = s[1]
                dty = b.locals[p[0]] if not p[1] else (p[1][-1][2] if p[1][-1][0] == 'f' else None)
                v = self.rvalue(st, s[2], d, dty)
                if not p[1]:
                    st.mem[('L', d, p[0])] = v
                else:
                    cell, path = self.place(st, p, d)
                    st.store(cell, path, v)
            elif k == 'dead':
                st.mem.pop(('L', d, s[1]), None)
            elif k == 'live':
                pass
            elif k == 'setd':
                cell, path = self.place(st, s[1], d)
                old = st.load(cell, path)
                if old[0] == 'A':
                    st.store(cell, path, ('A', old[1], s[2], old[3]))
                else:
                    raise Unsupported('set discriminant')
            elif k == 'assume':
                v = self.operand(st, s[1], d)
                if v[0] == 'b':
                    if not st.assume(v[1]):
                        return []
        k = t[0]
        if k == 'goto':
            return [self.goto(st, t[1])]
        if k == 'switch':
            return self.switch(st, t, d)
        if k == 'ret':
            return self.pop(st)
        if k == 'call':
            return self.call(st, t, d)
        if k == 'drop':
            return self.models.drop(self, st, t, d)
        if k == 'assert':
            v = self.operand(st, t[1], d)
            c = v[1] if t[2] else neg(v[1])
            r = st.ev(c)
            if r is True:
                self.guards.add((t[3], str(t[6])))
                return [self.goto(st, t[5])]
            if r is None:
                raise Split([c, neg(c)])
            self.panic(st, 'assert:' + t[3], t[6])
            return []
        if k == 'yield':
            # suspension: the environment resumes the task; nothing of its own state changes meanwhile
            cell, path = self.place(st, t[2], d)
            st.store(cell, path, ('O', None, ('resume', 0)))
            self.spec_event(st, 'yield', None)
            return [self.goto(st, t[1])]
        if k == 'unreachable':
            return []
        if k in ('resume', 'cleanup', 'tailcall', 'asm'):
            if k in ('tailcall', 'asm'):
                raise Unsupported(k)
            return []
        raise Unsupported('terminator %s' % k)

    def spec_event(self, st, name, data):
        f = getattr(self.spec, 'event', None)
        if f:
            f(self, st, name, data)

    def goto(self, st, b):
        fr = st.frames[-1]
        back = self.is_back(fr[0], fr[1], b)
        st.frames = st.frames[:-1] + ((fr[0], b) + fr[2:],)
        st.entry = not back
        return st

    def switch(self, st, t, d):
        v = self.operand(st, t[1], d)
        arms, other = t[2], t[3]
        if v[0] == 'b':
            r = st.ev(v[1])
            if r is None:
                raise Split([v[1], neg(v[1])])
            val = 1 if r else 0
            for a, blk in arms:
                if a == val:
                    return [self.goto(st, blk)]
            return [self.goto(st, other)]
        if v[0] != 'i':
            raise Unsupported('switch on %s' % show(v))
        x = v[1]
        if is_const(x):
            tt = self.prog.types[t[4]]
            val = x[0]
            if val < 0:
                bits = {'isize': 64, 'i64': 64, 'i32': 32, 'i16': 16, 'i8': 8}.get(tt.get('n'), 128)
                val &= (1 << bits) - 1
            for a, blk in arms:
                if a == val:
                    return [self.goto(st, blk)]
            return [self.goto(st, other)]
        # symbolic: one case per target (arms with a common target are taken together)
        alts = []
        rest = []
        for a, blk in arms:
            c = self.cmpc(st, 'Eq', x, const(a))
            r = st.ev(c)
            if r is True:
                return [self.goto(st, blk)]
            if r is False:
                continue
            alts.append((c, blk))
        out = []
        if alts and all(isinstance(c, tuple) and c[0] == 'in' for c, _ in alts):
            groups = {}
            allm = 0
            for c, blk in alts:
                groups[blk] = groups.get(blk, 0) | c[3]
                allm |= c[3]
            base, pos = alts[0][0][1], alts[0][0][2]
            groups[other] = groups.get(other, 0) | (FULL & ~allm)
            for blk, m in groups.items():
                s2 = st.copy()
                if s2.refine(base, pos, m):
                    out.append(self.goto(s2, blk))
            return out
        for c, blk in alts:
            s2 = st.copy()
            if s2.assume(c):
                out.append(self.goto(s2, blk))
        s2 = st.copy()
        for c, blk in alts:
            if not s2.assume(neg(c)):
                return out
        out.append(self.goto(s2, other))
        return out

    def panic(self, st, kind, span):
        k = (kind, span if isinstance(span, str) else str(span))
        stack = self.where(st)
        if k not in self.panics:
            self.panics[k] = stack
        f = getattr(self.spec, 'panic', None)
        if f:
            f(self, st, kind, span)

    def call(self, st, t, d):
        c = self.prog.fns[t[1]]
        args = [self.operand(st, a, d) for a in t[2]]
        dest = self.place(st, t[3], d) if t[3] is not None else None
        if 'ptr' in c:
            fv = self.operand(st, c['ptr'], d)
            return self.apply(st, fv, args, dest, t[4], t[6])
        return self.invoke(st, c, args, dest, t[4], t[5], t[6])

    def apply(self, st, fv, args, dest, target, span, cont=None):
        """call a function value with plain arguments"""
        if fv[0] == 'R' or fv[0] == 'V':
            fv2 = st.deref(fv)
            if fv2[0] in ('F', 'FB'):
                fv = fv2
            elif fv2[0] == 'A':
                b = self.models.closure_body(self, fv2[1])
                self.push(st, b, [fv] + list(args), dest, target, cont)
                return [st]
        if fv[0] == 'N' and fv[1] == 'box':
            return self.apply(st, ('R', fv[2][0], ()), args, dest, target, span, cont)
        if fv[0] == 'FB':
            self.push(st, fv[1], list(args), dest, target, cont)
            return [st]
        if fv[0] == 'F':
            c = self.prog.fns[fv[1]]
            return self.invoke(st, c, list(args), dest, target, None, span, cont)
        if fv[0] == 'A':
            b = self.models.closure_body(self, fv[1])
            if b is not None:
                body = self.prog.bodies[b]
                a0 = fv
                t1 = self.prog.types[body.locals[1]]
                if t1['k'] == 'ref':
                    cell = st.newheap(fv)
                    a0 = ('R', cell, ())
                self.push(st, b, [a0] + list(args), dest, target, cont)
                return [st]
        raise Unsupported('call of %s' % show(fv))

    def invoke(self, st, c, args, dest, target, dty, span, cont=None):
        """call a resolved function item"""
        if c.get('ctor'):
            v = ('A', c['out'], c['variant'], tuple(args))
            return self.finish(st, v, dest, target, cont)
        r = self.models.call(self, st, c, args, dest, target, dty, span, cont)
        if r is not None:
            out = []
            for s2, v in r:
                if v is PUSHED:
                    out.append(s2)
                else:
                    out.extend(self.finish(s2, v, dest, target, cont))
            return out
        b = self.prog.body_of(c)
        if b is None and c.get('dyn') is None:
            b = self.models.resolve(self, st, c, args)
        if b is not None:
            body = self.prog.bodies[b]
            if body.kind == 'coroutine':
                return self.models.poll_coroutine(self, st, b, args, dest, target, cont)
            if body.kind == 'closure':
                # Fn*/call*(closure, (args...))
                a0 = args[0]
                t1 = self.prog.types[body.locals[1]]
                if t1['k'] == 'ref' and a0[0] not in ('R', 'V'):
                    a0 = ('R', st.newheap(a0), ())
                elif t1['k'] != 'ref' and a0[0] in ('R', 'V'):
                    a0 = st.deref(a0)
                rest = args[1:]
                if len(rest) == 1 and body.argc - 1 != 1 or (len(rest) == 1 and c.get('m') in ('call', 'call_mut', 'call_once')):
                    rest = list(rest[0][3])
                self.push(st, b, [a0] + list(rest), dest, target, cont)
                return [st]
            self.push(st, b, args, dest, target, cont)
            return [st]
        raise Unsupported('call %s%s in %s' % (c.get('rpath') or c.get('path') or c, ' (virtual)' if c.get('ik') == 'virtual' else '',
                          self.prog.bodies[st.frames[-1][0]].path if st.frames and isinstance(st.frames[-1][0], int) else ''))

    def guarded(self, st, f):
        """run a judgement on a state, case by case where it needs distinctions"""
        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            try:
                if n > 200:
                    raise Unsupported('too many cases in a judgement')
                f(s.copy())
            except Split as e:
                try:
                    for alt in e.alts:
                        work.extend(self.cases(s, alt))
                except Unsupported as u:
                    self.gave_up(st, u)
            except Unsupported as e:
                if self.strict:
                    raise
                self.gave_up(st, e)

    def gave_up(self, st, e):
        if os.environ.get('VP_STACK'):
            print('STACK', [(self.prog.bodies[f[0]].path, f[1]) if isinstance(f[0], int) else f[0] for f in st.frames][-4:], e, file=sys.stderr)
        self.incomplete.setdefault(str(e), self.where(st))

    # ---------- exploration
    def explore(self, inits):
        """run to completion; returns the list of terminal states (no frames)"""
        from canon import Table
        self.table = Table(self)
        work = []
        terms = []
        seq = 0
        def push(st, src=None):
            nonlocal seq
            seq += 1
            heapq.heappush(work, (self.prio(st, src), seq, st))
        for st in inits:
            push(st)
        while work:
            # all states at the first program point in the weak topological order
            pr, _, st = heapq.heappop(work)
            batch = [st]
            while work and work[0][0] == pr:
                batch.append(heapq.heappop(work)[2])
            todo = {}
            for st in batch:
                if not st.frames:
                    self.stats['terminals'] += 1
                    terms.append(st)
                    f = getattr(self.spec, 'terminal', None)
                    if f:
                        self.guarded(st, lambda s: f(self, s))
                    continue
                fr = st.frames[-1]
                isj = fr[1] in self.prog.bodies[fr[0]].joins if isinstance(fr[0], int) else True
                if not isj:
                    todo[len(todo)] = st
                    continue
                try:
                    r = self.table.visit(st)
                except Unsupported as e:
                    if self.strict:
                        raise
                    self.gave_up(st, e)
                    continue
                if r is not None:
                    todo[self.table.slot] = r
            if self.enough is not None and self.enough():
                return terms
            for st in todo.values():
                self.stats['states'] += 1
                if self.stats['states'] > self.max_states:
                    self.incomplete['state budget exceeded'] = self.where(st)
                    return terms
                if self.deadline and time.time() > self.deadline:
                    self.incomplete['time budget exceeded'] = self.where(st)
                    return terms
                try:
                    for s2 in self.step(st):
                        push(s2, st)
                except Unsupported as e:
                    if self.strict:
                        raise
                    self.gave_up(st, e)
        return terms

    def prio(self, st, src):
        """position in the weak topological order, frame by frame; a loop is left (and its head entered again)
        only after everything in it has been processed; a client's loop comes last of all"""
        out = []
        n = len(st.frames)
        same = src is not None
        for i, fr in enumerate(st.frames):
            top = i == n - 1
            if same and not (i < len(src.frames) and src.frames[i][0] == fr[0]):
                same = False
            if not isinstance(fr[0], int):
                out.append((1 << 30, 0) if top else (0, 0))
                continue
            b = self.prog.bodies[fr[0]]
            blk = fr[1] if isinstance(fr[1], int) else 0
            p = b.wpos.get(blk, 0)
            k = (p, 0)
            if same and blk in b.wend:
                u = src.frames[i][1]
                q = b.wpos.get(u, 0) if isinstance(u, int) else 0
                if top and p <= q <= b.wend[blk] and not (i == len(src.frames) - 1 and u == blk and False):
                    k = (b.wend[blk], 1)        # back edge
            if same and src.frames[i][1] != fr[1]:
                same = False
            out.append(k)
        return tuple(out) + ((0, 1),)

PUSHED = object()

def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    if c[0] == 'in':
        return ('in', c[1], c[2], FULL & ~c[3])
    if c[0] == 'ge':
        return ('ge', addc(scale(c[1], -1), -1))
    if c[0] == 'eq':
        return ('ne', c[1])
    if c[0] == 'ne':
        return ('eq', c[1])
    return ('not', c)

def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ('and', a, b)

def cor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ('or', a, b)
