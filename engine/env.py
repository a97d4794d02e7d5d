"""Default environment: how unknown values look, and calls every analysis treats alike."""
import lin
from lin import const, add, addc, sub as lsub, scale, is_const
from interp import *
from machine import Interp, PUSHED
from models import one, seqv, slen, fmt_render, Models, NONE, SOME, OK, ERR, PENDING, READY, TUP, UNIT, I
from prog import Unsupported

BYTESEQ = ('bytes::Bytes', 'bytes::BytesMut', 'std::string::String')

class Env:
    """base class of the analyses; subclasses override call / event / terminal / normalise / panic"""
    def __init__(self, prog):
        self.prog = prog
        self.panics = []

    # unknown values of known container types
    def opaque(self, st, t, ty, sym):
        k = t['k']
        if k in ('str',) or (k == 'slice' and self.prog.types[t['e']].get('n') == 'u8'):
            return self.bytes_of(st, sym)
        if k == 'adt':
            p = t['p']
            if p in BYTESEQ:
                return self.bytes_of(st, sym)
            if p == 'std::vec::Vec':
                if self.prog.types[t['a'][0]].get('n') == 'u8':
                    return self.bytes_of(st, sym)
                st.ip.elemty[sym] = t['a'][0]
                return self.list_of(st, sym)
            if p in ('std::collections::HashMap', 'std::collections::BTreeMap') and len(t['a']) >= 2:
                st.ip.elemty[sym] = self.pairtype(t)
                return self.list_of(st, sym)
            if t.get('ak') == 'struct' and len(t['v']) == 1 and t['crate'] and p.startswith(('std::ops::Range',)):
                return ('A', ty, 0, tuple(st.opaque(f['t'], ('.', sym, 0, i)) for i, f in enumerate(t['v'][0]['f'])))
        return None

    def bytes_of(self, st, sym):
        n = ('o', ('.', sym, 'len'))
        st.cons = st.cons | frozenset([lin.sym(n)])
        return ('S', (('sub', sym, const(0), lin.sym(n)),))

    def pairtype(self, t):
        f = [t['a'][0], t['a'][1]]
        for i, u in enumerate(self.prog.types):
            if u.get('k') == 'tuple' and u['f'] == f and u.get('synth'):
                return i
        self.prog.types.append(dict(k='tuple', f=f, synth=True, s='(K, V)', crate=t['crate']))
        return len(self.prog.types) - 1

    def list_of(self, st, sym):
        n = ('o', ('.', sym, 'len'))
        st.cons = st.cons | frozenset([lin.sym(n)])
        return ('Q', (('sub', sym, const(0), lin.sym(n)),))

    def call(self, x):
        return None

    def drop(self, ip, st, t, d):
        return None

    def panic(self, ip, st, kind, span):
        self.panics.append((kind, span, ip.where(st)))

class IoEnv(Env):
    """an arbitrary output (std::io::Write): every write succeeds or fails; what it took is recorded in gh['out']"""
    failing = True

    def call(self, x):
        if x.c.get('trait') == 'std::io::Write' and (x.c.get('dyn') or x.c.get('ik') == 'virtual' or x.c.get('inst') is None):
            return self.io(x)
        return None

    def memory(self, x):
        """writing to a vector cannot fail; None for any other output"""
        v = x.a[0]
        for _ in range(8):
            if v[0] != 'R':
                return None
            cell, path = v[1], v[2]
            v = x.st.load(cell, path)
            if v[0] == 'S':
                break
        else:
            return None
        st, m = x.st, x.m
        if m == 'flush':
            return one(st, OK(UNIT))
        if m in ('write_all', 'write', 'write_fmt'):
            data = fmt_render(st, x.a[1]) if m == 'write_fmt' else seqv(st, x.a[1])
            st.store(cell, path, ('S', st.concat(v[1], data[1])))
            return one(st, OK(I(slen(st, data)) if m == 'write' else UNIT))
        return None

    def io(self, x):
        st = x.st
        m = x.m
        if x.a:
            r = self.memory(x)
            if r is not None:
                return r
        if m in ('by_ref',):
            return one(st, x.a[0])
        if st.gh.get('failed'):
            self.after_failure(x)
        if m == 'flush':
            return self.outcomes(st, ('S', ()), UNIT)
        if m in ('write_all', 'write', 'write_fmt'):
            data = fmt_render(st, x.a[1]) if m == 'write_fmt' else seqv(st, x.a[1])
            if m == 'write':
                return self.short(x, data)
            if 'owed' in st.gh:
                if st.gh['owed'] == data:
                    del st.gh['owed']
                else:
                    return self.outcomes(st, data, UNIT)
            return self.outcomes(st, data, UNIT)
        raise Unsupported('output operation %s' % m)

    def emit(self, st, data):
        out = st.gh.get('out', ('S', ()))
        st.gh['out'] = ('S', st.concat(out[1], data[1]))

    def outcomes(self, st, data, ok):
        res = []
        if self.failing:
            s2 = st.copy()
            e = s2.freshsym('ioerr')
            s2.gh['failed'] = ('Y', e)
            res.append((s2, ERR(('O', None, e))))
        self.emit(st, data)
        res.append((st, OK(ok)))
        return res

    def short(self, x, data):
        """write(): may take only a part"""
        st = x.st
        n = slen(st, data)
        res = []
        if self.failing:
            s2 = st.copy()
            e = s2.freshsym('ioerr')
            s2.gh['failed'] = ('Y', e)
            res.append((s2, ERR(('O', None, e))))
        s3 = st.copy()
        self.emit(st, data)
        st.gh.pop('owed', None)
        res.append((st, OK(I(n))))
        if s3.assume(('ge', addc(n, -1)) if not is_const(n) else n[0] >= 1):
            k = s3.fresh('taken', 0)
            s3.assume(('ge', addc(lsub(n, k), -1)))
            self.emit(s3, s3.slice(data, const(0), k))
            s3.gh['owed'] = s3.slice(data, k, n)
            res.append((s3, OK(I(k))))
        return res

    def after_failure(self, x):
        pass

def make(prog, env):
    ip = Interp(prog, env, Models(prog, env))
    return ip
