"""Trace-partitioning abstract interpreter over the dumped MIR.

Values
  ('i', Lin)                 integer / char / byte (a byte of an input buffer is the symbol ('B', base, pos))
  ('b', cond)                boolean: True/False or a symbolic condition
  ('A', ty, variant, fields) struct / enum value / tuple / closure / coroutine / array
  ('R', cell, path)          reference or pointer to a memory place
  ('V', value)               shared reference to an immutable snapshot
  ('S', segs)                byte sequence (Bytes, BytesMut, Vec<u8>, [u8], str): tuple of segments
        ('sub', base, a, b)  bytes a..b of the unknown buffer `base`
        ('lit', bytes)       literal bytes
        ('byt', Lin)         one byte
  ('Q', items)               sequence of arbitrary elements: ('el', v) | ('sub', base, a, b)
  ('O', ty, sym)             unknown value, identified by sym
  ('F', fnid) ('FB', body)   function values
  ('N', kind, fields)        native objects (iterators, boxes, futures of the environment)
  ('U',)                     uninitialised / moved out
Conditions: ('ge', Lin) | ('eq', Lin) | ('ne', Lin) | ('in', base, pos, mask) | ('sym', s) | ('not', c) | ('and'|'or', c, d)
"""
import lin
from lin import const, add, addc, sub as lsub, scale, is_const
from prog import Unsupported
import sys
sys.setrecursionlimit(100000)

FULL = (1 << 256) - 1
UNIT = ('A', None, 0, ())
U = ('U',)
USIZE_MAX = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1

class Split(Exception):
    """evaluation needs a case distinction; alts: list of assumptions (cond tuples or callables)"""
    def __init__(self, alts):
        self.alts = alts

class Infeasible(Exception):
    pass

def mask_of(pred):
    m = 0
    for b in range(256):
        if pred(b):
            m |= 1 << b
    return m

def mask_bytes(s):
    m = 0
    for b in s:
        m |= 1 << b
    return m

def show_mask(m):
    if m == FULL:
        return 'any'
    bs = [b for b in range(256) if m >> b & 1]
    if len(bs) > 128:
        inv = [b for b in range(256) if not m >> b & 1]
        return 'not ' + repr(bytes(inv))
    return repr(bytes(bs))

INTR = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, USIZE_MAX), 'usize': (0, USIZE_MAX),
        'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, ISIZE_MAX),
        'isize': (-2**63, ISIZE_MAX), 'u128': (0, 2**128 - 1), 'i128': (-2**127, 2**127 - 1)}

class St:
    __slots__ = ('frames', 'mem', 'cons', 'bm', 'vf', 'bf', 'gh', 'trace', 'ret', 'ip', 'entry', 'slog')

    def __init__(self):
        self.slog = None        # the substitutions made, where somebody asks for them

    def copy(self):
        s = St()
        s.frames = self.frames
        s.mem = dict(self.mem)
        s.cons = self.cons
        s.bm = dict(self.bm)
        s.vf = dict(self.vf)
        s.bf = dict(self.bf)
        s.gh = dict(self.gh)
        s.trace = self.trace
        s.ret = self.ret
        s.ip = self.ip
        s.entry = self.entry
        s.slog = self.slog
        return s

    # ---------- numbers
    def ent(self, e):
        """does the state imply e >= 0"""
        if not e[1]:
            return e[0] >= 0
        e2, extra = self._bytecons(e)
        cs = self.cons
        if extra:
            cs = cs | extra
        return lin.entails(cs, e)

    def _bytecons(self, e):
        extra = None
        for s, k in e[1]:
            if isinstance(s, tuple) and s[0] == 'B':
                m = self.bmask(s[1], s[2])
                lo = (m & -m).bit_length() - 1
                hi = m.bit_length() - 1
                if extra is None:
                    extra = set()
                extra.add((-lo, ((s, 1),)))
                extra.add((hi, ((s, -1),)))
        return e, (frozenset(extra) if extra else None)

    def ent_eq(self, e):
        if not e[1]:
            return e[0] == 0
        return self.ent(e) and self.ent(scale(e, -1))

    def norm_pos(self, base, pos):
        return pos

    def bmask(self, base, pos):
        m = self.bm.get((base, pos), FULL)
        m &= self.ip.basemask.get(base[0] if isinstance(base, tuple) and base and isinstance(base[0], str) and base[0] not in '.*' else base, FULL)
        # equal positions under another name
        for (b2, p2), m2 in self.bm.items():
            if b2 == base and p2[1] != pos[1] and m & ~m2:
                d = lsub(p2, pos)
                if d[1] and self.ent_eq(d):
                    m &= m2
        return m

    def fresh(self, name, lo=0, hi=None):
        self.ip.counter += 1
        s = ('n', name, self.ip.counter)
        l = lin.sym(s)
        add_ = []
        if lo is not None:
            add_.append(addc(l, -lo))
        if hi is not None:
            add_.append(addc(scale(l, -1), hi))
        if add_:
            self.cons = self.cons | frozenset(add_)
        return l

    def pure(self, key, name, lo=0, hi=None):
        """like fresh, but the same symbol whenever it stands for the same thing (a block may be run again after a case split)"""
        l = self.ip.pures.get(key)
        if l is None:
            l = self.ip.pures[key] = self.fresh(name, lo, hi)
            self.ip.puresyms.add(l[1][0][0])
        if lo is not None:
            self.cons = self.cons | frozenset([addc(l, -lo)])
        if hi is not None:
            self.cons = self.cons | frozenset([addc(scale(l, -1), hi)])
        return l

    def freshsym(self, name):
        self.ip.counter += 1
        return (name, self.ip.counter)

    def ev(self, c):
        """evaluate a condition: True / False / None"""
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'ge':
            if self.ent(c[1]):
                return True
            if self.ent(addc(scale(c[1], -1), -1)):
                return False
            return None
        if k == 'eq':
            if self.ent_eq(c[1]):
                return True
            if self.ent(addc(c[1], -1)) or self.ent(addc(scale(c[1], -1), -1)):
                return False
            return None
        if k == 'ne':
            r = self.ev(('eq', c[1]))
            return None if r is None else (not r)
        if k == 'in':
            m = self.bmask(c[1], c[2])
            if m & ~c[3] == 0:
                return True
            if m & c[3] == 0:
                return False
            return None
        if k == 'not':
            r = self.ev(c[1])
            return None if r is None else (not r)
        if k == 'and':
            a = self.ev(c[1])
            if a is False:
                return False
            b = self.ev(c[2])
            if b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a = self.ev(c[1])
            if a is True:
                return True
            b = self.ev(c[2])
            if b is True:
                return True
            return False if (a is False and b is False) else None
        if k == 'sym':
            return self.bf.get(c[1])
        if k == 'var':       # ('var', sym, idx): opaque enum sym has variant idx
            v = self.vf.get(c[1])
            return None if v is None else v == c[2]
        raise Unsupported('cond %r' % (c,))

    def assume(self, c):
        """returns False if contradictory; may raise Split"""
        if c is True:
            return True
        if c is False:
            return False
        if callable(c):
            return c(self) is not False
        r = self.ev(c)
        if r is True:
            return True
        if r is False:
            return False
        k = c[0]
        if k == 'ge':
            if self.ent(scale(c[1], -1)):
                return self.assume(('eq', c[1]))
            self.cons = self.cons | frozenset([lin.tighten(c[1])])
            return self.find_eqs(c[1])
        if k == 'eq':
            return self.assume_eq(c[1])
        if k == 'ne':
            if self.ent(c[1]):
                return self.assume(('ge', addc(c[1], -1)))
            if self.ent(scale(c[1], -1)):
                return self.assume(('ge', addc(scale(c[1], -1), -1)))
            # a split covers all cases, those that contradict the assumption too: it may stand for the whole state
            raise Split([('ge', addc(c[1], -1)), ('ge', addc(scale(c[1], -1), -1)), ('eq', c[1])])
        if k == 'in':
            return self.refine(c[1], c[2], c[3])
        if k == 'not':
            d = c[1]
            if d[0] == 'ge':
                return self.assume(('ge', addc(scale(d[1], -1), -1)))
            if d[0] == 'eq':
                return self.assume(('ne', d[1]))
            if d[0] == 'ne':
                return self.assume(('eq', d[1]))
            if d[0] == 'in':
                return self.refine(d[1], d[2], FULL & ~d[3])
            if d[0] == 'not':
                return self.assume(d[1])
            if d[0] == 'and':
                return self.assume(('or', ('not', d[1]), ('not', d[2])))
            if d[0] == 'or':
                return self.assume(('not', d[1])) and self.assume(('not', d[2]))
            if d[0] == 'sym':
                self.bf[d[1]] = False
                return True
            raise Unsupported('not %r' % (d,))
        if k == 'and':
            log, self.slog = self.slog, ()
            try:
                if not self.assume(c[1]):
                    return False
            finally:
                mine = self.slog
                self.slog = None if log is None else log + mine
            return self.assume(renamed(c[2], mine))
        if k == 'or':
            a = self.ev(c[1])
            b = self.ev(c[2])
            if a is False:
                return self.assume(c[2])
            if b is False:
                return self.assume(c[1])
            raise Split([c[1], ('and', ('not', c[1]), c[2]), ('and', ('not', c[1]), ('not', c[2]))])
        if k == 'sym':
            self.bf[c[1]] = True
            return True
        if k == 'var':
            self.vf[c[1]] = c[2]
            return True
        raise Unsupported('assume %r' % (c,))

    def find_eqs(self, e):
        """a new inequality may force equalities among the constraints sharing its symbols"""
        syms = set(s for s, _ in e[1])
        for c in self.cons:
            if len(c[1]) <= 2 and any(s in syms for s, _ in c[1]):
                if self.ent(scale(c, -1)):
                    return self.assume_eq(c)
        if lin.infeasible(frozenset(lin.relevant(self.cons, e))):
            return False
        return True

    def refine(self, base, pos, mask):
        m = self.bmask(base, pos) & mask
        if not m:
            return False
        new = {(base, pos): m}
        for (b2, p2) in self.bm:
            if b2 == base and p2[1] != pos[1]:
                d = lsub(p2, pos)
                if d[1] and self.ent_eq(d):
                    new[b2, p2] = m
        if len(new) > 1 and (base, pos) not in self.bm:
            del new[base, pos]
        self.bm.update(new)
        return True

    def assume_eq(self, e):
        """e == 0"""
        best = None
        for s, k in e[1]:
            if abs(k) == 1 and not (isinstance(s, tuple) and s[0] in ('B', 'o')):
                if best is None or self.ip.symrank(s) > self.ip.symrank(best[0]):
                    best = (s, k)
        if best is None:
            self.cons = self.cons | frozenset([e, scale(e, -1)])
            # single byte equal to a constant
            if len(e[1]) == 1 and isinstance(e[1][0][0], tuple) and e[1][0][0][0] == 'B':
                s, k = e[1][0]
                v = -e[0] // k
                return self.refine(s[1], s[2], (1 << v) if 0 <= v < 256 else 0)
            return not lin.infeasible(frozenset(lin.relevant(self.cons, e)))
        s, k = best
        rest = (e[0], tuple(x for x in e[1] if x[0] != s))
        val = scale(rest, -1) if k == 1 else rest
        if not self.subst({s: val}):
            return False
        if s in self.ip.puresyms:
            # a block that is run again makes the same symbol once more
            self.cons = self.cons | frozenset([e, scale(e, -1)])
        return True

    def subst(self, m):
        f = Subst(m)
        if self.slog is not None:
            self.slog = self.slog + (m,)
        self.mem = {c: f.val(v) for c, v in self.mem.items()}
        self.gh = {c: f.val(v) for c, v in self.gh.items()}
        cons = lin.simplify([f.lin(c) for c in self.cons])
        if cons is None:
            return False
        self.cons = cons
        bm = {}
        for (b, p), mk in self.bm.items():
            k = (f.base(b), f.lin(p))
            o = bm.get(k)
            n = mk if o is None else (mk & o)
            if not n:
                return False
            bm[k] = n
        self.bm = bm
        if self.ret is not None:
            self.ret = f.val(self.ret)
        self.frames = tuple(fr if fr[4] is None and (fr[2] is None or not fr[2][1]) else
                            (fr[0], fr[1], None if fr[2] is None else (fr[2][0], f.path(fr[2][1])), fr[3],
                             None if fr[4] is None else f.val(fr[4])) for fr in self.frames)
        self.vf = {f.osym(s): x for s, x in self.vf.items()}
        self.bf = {f.osym(s): x for s, x in self.bf.items()}
        if lin.infeasible(self.cons):
            return False
        return True

    # ---------- memory
    def loadcell(self, cell):
        v = self.mem.get(cell)
        if v is None:
            raise Unsupported('dead cell %r' % (cell,))
        return v

    def load(self, cell, path):
        v = self.loadcell(cell)
        for p in path:
            v = self.proj(v, p)
        return v

    def deref(self, v):
        k = v[0]
        if k == 'R':
            return self.load(v[1], v[2])
        if k == 'V':
            return v[1]
        if k == 'N' and v[1] == 'box':
            return self.loadcell(v[2][0])
        if k == 'O':
            c = self.ocell(v)
            return self.loadcell(c)
        if k == 'A' and len(v[3]) >= 1:      # Unique / NonNull / Pin wrappers
            return self.deref(v[3][0])
        raise Unsupported('deref of %s' % show(v))

    def ocell(self, v):
        """the memory cell behind an unknown reference"""
        c = ('X', v[2])
        if c not in self.mem:
            t = self.ip.prog.types[v[1]] if v[1] is not None else None
            e = t.get('e') if t else None
            if e is None and t and t.get('k') == 'adt' and t['a']:
                e = t['a'][0]
            self.mem[c] = self.opaque(e, ('*', v[2]))
        return c

    def opaque(self, ty, sym):
        """an unknown value of the given type"""
        t = self.ip.prog.types[ty] if ty is not None else None
        if t is not None:
            k = t['k']
            if k in ('int', 'uint'):
                lo, hi = INTR[t['n']]
                if t['n'] == 'usize':
                    hi = None
                s = ('o', sym)
                l = lin.sym(s)
                add_ = [addc(l, -lo)]
                if hi is not None and hi < 2**40:
                    add_.append(addc(scale(l, -1), hi))
                self.cons = self.cons | frozenset(add_)
                return ('i', l)
            if k == 'bool':
                return ('b', ('sym', sym))
            if k == 'tuple':
                return ('A', ty, 0, tuple(self.opaque(x, ('.', sym, i)) for i, x in enumerate(t['f'])))
            r = self.ip.opaque_hook(self, t, ty, sym)
            if r is not None:
                return r
        return ('O', ty, sym)

    def variant_of(self, v):
        """variant index of an enum value; may raise Split"""
        if v[0] == 'A':
            return v[2]
        if v[0] == 'O':
            x = self.vf.get(v[2])
            if x is not None:
                return x
            t = self.ip.prog.types[v[1]] if v[1] is not None else None
            if not t or t.get('ak') != 'enum':
                raise Unsupported('discriminant of unknown %s' % show(v))
            raise Split([('var', v[2], i) for i in range(len(t['v']))])
        raise Unsupported('discriminant of %s' % show(v))

    def proj(self, v, p):
        k = p[0]
        vk = v[0]
        if k == 'f':
            if vk == 'A':
                if p[1] >= len(v[3]):
                    raise Unsupported('field %d of %s' % (p[1], show(v)))
                return v[3][p[1]]
            if vk == 'O':
                return self.ofield(v, self.vf.get(v[2], 0), p)
            if vk == 'D':
                return self.ofield(v, v[3], p)
            if vk == 'R' or (vk == 'N' and v[1] == 'box') or vk == 'V':
                return v
            raise Unsupported('field %r of %s' % (p[1], show(v)))
        if k == 'd':
            if vk == 'A':
                return v
            if vk == 'O':
                return ('D', v[1], v[2], p[1])
            raise Unsupported('downcast of %s' % show(v))
        if k == '*':
            return self.deref(v)
        if k == 'ix':          # index by Lin (stored in reference paths)
            return self.index(v, p[1])
        if k == 'ci':
            n = self.seqlen(v)
            idx = const(p[1]) if not p[2] else addc(n, -p[1])
            return self.index(v, idx)
        if k == 'sub':
            n = self.seqlen(v)
            to = addc(n, -p[2]) if p[3] else const(p[2])
            return self.slice(v, const(p[1]), to)
        raise Unsupported('projection %r' % (p,))

    def ofield(self, v, variant, p):
        ty = p[2] if len(p) > 2 else None
        t = self.ip.prog.types[v[1]] if v[1] is not None else None
        if t is not None and t.get('k') == 'adt' and variant < len(t['v']) and p[1] < len(t['v'][variant]['f']):
            fty = t['v'][variant]['f'][p[1]]['t']
            if ty is None or self.ip.prog.types[fty]['k'] not in ('alias', 'param', 'other'):
                ty = fty
        return self.opaque(ty, ('.', v[2], variant, p[1]))

    def seqlen(self, v):
        if v[0] == 'S':
            return seglen(v[1])
        if v[0] == 'Q':
            return qlen(v[1])
        if v[0] == 'A':
            return const(len(v[3]))
        raise Unsupported('length of %s' % show(v))

    def index(self, v, idx):
        if v[0] == 'S':
            return self.byte_at(v[1], idx)
        if v[0] == 'A':
            if is_const(idx) and 0 <= idx[0] < len(v[3]):
                return v[3][idx[0]]
        if v[0] == 'Q':
            return self.q_at(v[1], idx)
        raise Unsupported('index %s of %s' % (lin.show(idx), show(v)))

    def q_at(self, items, idx):
        pos = const(0)
        for it in items:
            n = const(1) if it[0] == 'el' else lsub(it[3], it[2])
            r = self.ev(('ge', addc(lsub(add(pos, n), idx), -1)))
            if r is None:
                c = ('ge', addc(lsub(add(pos, n), idx), -1))
                raise Split([c, ('not', c)])
            if r:
                if it[0] == 'el':
                    return it[1]
                return self.opaque(self.ip.elemty.get(it[1]), ('elem', it[1], add(it[2], lsub(idx, pos))))
            pos = add(pos, n)
        raise Unsupported('list index out of range')

    def byte_at(self, segs, idx):
        pos = const(0)
        for i, sg in enumerate(segs):
            n = seg1len(sg)
            c = ('ge', addc(lsub(add(pos, n), idx), -1))   # idx < pos+n
            r = self.ev(c) if i < len(segs) - 1 or sg[0] != 'sub' else True
            if r is None:
                raise Split([c, ('not', c)])
            if r:
                off = lsub(idx, pos)
                if sg[0] == 'sub':
                    if self.ip.on_byte is not None:
                        b = self.ip.on_byte(self, sg[1], add(sg[2], off))
                        if b is not None:
                            return ('i', b)
                    return ('i', lin.sym(('B', sg[1], add(sg[2], off))))
                if sg[0] == 'byt':
                    return ('i', sg[1])
                if is_const(off):
                    return ('i', const(sg[1][off[0]]))
                raise Split([('eq', addc(off, -j)) for j in range(len(sg[1]))])
            pos = add(pos, n)
        raise Unsupported('byte index beyond the sequence')

    def slice(self, v, a, b):
        if v[0] == 'S':
            return ('S', self.cut(v[1], a, b))
        if v[0] == 'Q':
            return ('Q', self.qcut(v[1], a, b))
        if v[0] == 'A':
            if is_const(a) and is_const(b):
                return ('A', None, 0, v[3][a[0]:b[0]])
        raise Unsupported('slice of %s' % show(v))

    def cut(self, segs, a, b):
        """bytes a..b of segs (bounds already checked)"""
        out = []
        pos = const(0)
        if self.ev(('ge', lsub(a, b))) is True:
            return ()
        if is_const(a) and a[0] == 0 and self.ent_eq(lsub(b, seglen(segs))):
            return segs
        for sg in segs:
            n = seg1len(sg)
            end = add(pos, n)
            # intersection of [pos,end) and [a,b)
            lo = self.maxl(pos, a)
            hi = self.minl(end, b)
            c = ('ge', addc(lsub(hi, lo), -1))
            r = self.ev(c)
            if r is None:
                if len(segs) == 1:
                    # possibly empty window of a single segment
                    if sg[0] == 'sub':
                        return (('sub', sg[1], add(sg[2], lsub(lo, pos)), add(sg[2], lsub(hi, pos))),)
                raise Split([c, ('not', c)])
            if r:
                if sg[0] == 'sub':
                    out.append(('sub', sg[1], add(sg[2], lsub(lo, pos)), add(sg[2], lsub(hi, pos))))
                elif sg[0] == 'byt':
                    out.append(sg)
                else:
                    x, y = lsub(lo, pos), lsub(hi, pos)
                    if not (is_const(x) and is_const(y)):
                        z = x if not is_const(x) else y
                        raise Split([('eq', addc(z, -j)) for j in range(len(sg[1]) + 1)])
                    out.append(('lit', sg[1][x[0]:y[0]]))
            pos = end
        return self.mergesegs(tuple(out))

    def qcut(self, items, a, b):
        if is_const(a) and a[0] == 0 and self.ent_eq(lsub(b, qlen(items))):
            return items
        if len(items) == 1 and items[0][0] == 'sub':
            it = items[0]
            return (('sub', it[1], add(it[2], a), add(it[2], b)),)
        if is_const(a) and is_const(b) and all(i[0] == 'el' for i in items):
            return items[a[0]:b[0]]
        raise Unsupported('list slice')

    def maxl(self, x, y):
        if x == y:
            return x
        d = lsub(x, y)
        r = self.ev(('ge', d))
        if r is True:
            return x
        if r is False:
            return y
        if self.ent(scale(d, -1)):
            return y
        raise Split([('ge', d), ('ge', addc(scale(d, -1), -1))])

    def minl(self, x, y):
        if x == y:
            return x
        d = lsub(y, x)
        r = self.ev(('ge', d))
        if r is True:
            return x
        if r is False:
            return y
        if self.ent(scale(d, -1)):
            return y
        raise Split([('ge', d), ('ge', addc(scale(d, -1), -1))])

    def mergesegs(self, segs):
        out = []
        for s in segs:
            if s[0] == 'lit' and not s[1]:
                continue
            if s[0] == 'byt' and is_const(s[1]):
                s = ('lit', bytes([s[1][0] & 255]))
            if s[0] == 'byt' and len(s[1][1]) == 1 and s[1][0] == 0 and s[1][1][0][1] == 1:
                y = s[1][1][0][0]
                if isinstance(y, tuple) and y[0] == 'B':
                    s = ('sub', y[1], y[2], addc(y[2], 1))
            if s[0] == 'sub' and s[2] == s[3]:
                continue
            if out and s[0] == 'lit' and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + s[1])
                continue
            if out and s[0] == 'sub' and out[-1][0] == 'sub' and out[-1][1] == s[1] and \
                    (out[-1][3] == s[2] or self.ent_eq(lsub(out[-1][3], s[2]))):
                out[-1] = ('sub', s[1], out[-1][2], s[3])
                continue
            out.append(s)
        return tuple(out)

    def concat(self, a, b):
        return self.mergesegs(a + b)

    def store(self, cell, path, v):
        if not path:
            self.mem[cell] = v
            return
        self.mem[cell] = self.upd(self.mem.get(cell, U), path, v)

    def upd(self, old, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == 'f':
            if old[0] == 'O':
                old = self.expand(old, self.vf.get(old[2], 0))
            if old[0] == 'U':
                fs = [U] * (p[1] + 1)
                old = ('A', None, 0, tuple(fs))
            if old[0] != 'A':
                raise Unsupported('store field of %s' % show(old))
            fs = list(old[3])
            while len(fs) <= p[1]:
                fs.append(U)
            fs[p[1]] = self.upd(fs[p[1]], path[1:], v)
            return ('A', old[1], old[2], tuple(fs))
        if p[0] == 'd':
            if old[0] == 'O':
                old = self.expand(old, p[1])
            if old[0] == 'U':
                old = ('A', None, p[1], ())
            return self.upd(old if old[2] == p[1] or old[3] else ('A', old[1], p[1], old[3]), path[1:], v)
        if p[0] in ('ix', 'ci'):
            idx = p[1] if p[0] == 'ix' else const(p[1])
            if p[0] == 'ci' and p[2]:
                idx = addc(const(len(old[3])) if old[0] == 'A' else self.seqlen(old), -p[1])
            if old[0] == 'A' and is_const(idx):
                fs = list(old[3])
                fs[idx[0]] = self.upd(fs[idx[0]], path[1:], v)
                return ('A', old[1], old[2], tuple(fs))
            if old[0] == 'S' and v[0] == 'i':
                n = seglen(old[1])
                return ('S', self.concat(self.concat(self.cut(old[1], const(0), idx), (('byt', v[1]),)),
                                         self.cut(old[1], addc(idx, 1), n)))
        raise Unsupported('store through %r of %s' % (p, show(old)))

    def expand(self, o, variant):
        t = self.ip.prog.types[o[1]] if o[1] is not None else None
        if not t or t.get('k') != 'adt':
            raise Unsupported('write into unknown %s' % show(o))
        fs = tuple(self.opaque(f['t'], ('.', o[2], variant, i)) for i, f in enumerate(t['v'][variant]['f']))
        return ('A', o[1], variant, fs)

    def newheap(self, v):
        self.ip.counter += 1
        c = ('H', self.ip.counter)
        self.mem[c] = v
        return c


def seg1len(s):
    if s[0] == 'sub':
        return lsub(s[3], s[2])
    if s[0] == 'lit':
        return const(len(s[1]))
    return const(1)

def seglen(segs):
    r = const(0)
    for s in segs:
        r = add(r, seg1len(s))
    return r

def qlen(items):
    r = const(0)
    for s in items:
        r = add(r, const(1) if s[0] == 'el' else lsub(s[3], s[2]))
    return r

def renamed(c, log):
    """a condition after substitutions"""
    if callable(c):
        return c
    for m in log:
        c = Subst(m).val(('b', c))[1]
    return c

class Subst:
    """substitution of numeric symbols in values (recursing into byte symbols)"""
    def __init__(self, m):
        self.m = m
        self.cache = {}

    def sym(self, s):
        r = self.m.get(s)
        if r is not None:
            return r
        if isinstance(s, tuple) and s[0] == 'B':
            p = self.lin(s[2])
            if p is not s[2] and p != s[2]:
                return lin.sym(('B', self.osym(s[1]), p))
        if isinstance(s, tuple) and s[0] == 'o':
            t = self.osym(s[1])
            if t != s[1]:
                return lin.sym(('o', t))
        return None

    def base(self, b):
        return self.osym(b)

    def path(self, p):
        return tuple(('ix', self.lin(x[1])) if x[0] == 'ix' else x for x in p)

    def osym(self, s):
        """numeric symbols inside the name of an unknown (element index)"""
        if isinstance(s, tuple) and s:
            if s[0] in ('.', '*'):
                return (s[0], self.osym(s[1])) + s[2:]
            if s[0] == 'elem':
                return ('elem', self.osym(s[1]), self.lin(s[2]))
            if s[0] == 'cmp':
                return (s[0], s[1], self.osym(s[2]), self.osym(s[3]))
        return s

    def lin(self, l):
        if not l[1]:
            return l
        m = {}
        for s, _ in l[1]:
            r = self.sym(s)
            if r is not None:
                m[s] = r
        return lin.subst(l, m) if m else l

    def val(self, v):
        if not isinstance(v, tuple):
            return v
        c = self.cache.get(v)
        if c is None:
            c = self.val1(v)
            self.cache[v] = c
        return c

    def val1(self, v):
        k = v[0] if v else None
        if k == 'i':
            l = self.lin(v[1])
            return v if l is v[1] else ('i', l)
        if k == 'b':
            return ('b', self.cond(v[1]))
        if k == 'A':
            return ('A', v[1], v[2], tuple(self.val(x) for x in v[3]))
        if k == 'R':
            return ('R', v[1], self.path(v[2]))
        if k == 'V':
            return ('V', self.val(v[1]))
        if k == 'S':
            return ('S', tuple(self.seg(s) for s in v[1]))
        if k == 'Q':
            return ('Q', tuple(self.seg(s) for s in v[1]))
        if k == 'N':
            return ('N', v[1], tuple(self.val(x) for x in v[2]))
        if k in ('O', 'D'):
            return (k, v[1], self.osym(v[2])) + v[3:]
        if k in ('F', 'FB', 'U'):
            return v
        if k == 'Y':
            return ('Y', self.osym(v[1]))
        if k == 'T':        # generic tuple for ghost state
            return ('T',) + tuple(self.val(x) for x in v[1:])
        if k == 'K':        # constant
            return v
        if k == 'L':
            return ('L', self.lin(v[1]))
        return v

    def seg(self, s):
        if s[0] == 'sub':
            return ('sub', self.base(s[1]), self.lin(s[2]), self.lin(s[3]))
        if s[0] == 'byt':
            return ('byt', self.lin(s[1]))
        if s[0] == 'el':
            return ('el', self.val(s[1]))
        return s

    def cond(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k in ('ge', 'eq', 'ne'):
            return (k, self.lin(c[1]))
        if k == 'in':
            return ('in', self.base(c[1]), self.lin(c[2]), c[3])
        if k == 'not':
            return ('not', self.cond(c[1]))
        if k in ('and', 'or'):
            return (k, self.cond(c[1]), self.cond(c[2]))
        if k in ('sym', 'var'):
            return (k, self.osym(c[1])) + c[2:]
        return c

def show(v, d=0):
    k = v[0]
    if k == 'i':
        return lin.show(v[1])
    if k == 'b':
        return str(v[1])
    if k == 'A':
        return '{%s v%d %s}' % (v[1], v[2], ', '.join(show(x, d + 1) for x in v[3]) if d < 5 else '..')
    if k == 'R':
        return '&%s%s' % (v[1], ''.join('.%s' % (p[1] if len(p) > 1 and p[0] == 'f' else p[0]) for p in v[2]))
    if k == 'V':
        return '&%s' % show(v[1], d + 1)
    if k in 'SQ':
        return '[%s]' % ' '.join(showseg(s) for s in v[1])
    if k == 'O':
        return '?%s' % (v[2],)
    if k == 'N':
        return '%s(%s)' % (v[1], ', '.join(show(x, d + 1) if isinstance(x, tuple) and x else str(x) for x in v[2]) if d < 5 else '..')
    if k == 'T':
        return '<%s>' % ', '.join(show(x, d + 1) if isinstance(x, tuple) and x else str(x) for x in v[1:])
    if k == 'L':
        return lin.show(v[1])
    if k == 'K':
        return repr(v[1])
    return str(v)[:80]

def showseg(s):
    if s[0] == 'sub':
        return '%s[%s..%s]' % (s[1], lin.show(s[2]), lin.show(s[3]))
    if s[0] == 'lit':
        return repr(s[1])
    if s[0] == 'byt':
        return '<%s>' % lin.show(s[1])
    if s[0] == 'el':
        return show(s[1], 3)
    return str(s)
