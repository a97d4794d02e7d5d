"""C19: byte windows.  Windows are built only through the public operations: from a buffer, then one cut
with unknown bounds (0 <= a <= b <= n), which is shown to denote exactly [a, b) and to have the same
representation as any later cut; every operation is then judged on that arbitrary window."""
from checks.registry import reg
from checks.base import *
import lin
from lin import const, add, addc, sub as lsub, scale, is_const
from interp import *
from models import *

class WinEnv(Env):
    predicate = None
    def __init__(self, prog):
        Env.__init__(self, prog)
        self.panicked = []

    def panic(self, ip, st, kind, span):
        self.panicked.append((kind, span, st.copy(), ip.where(st)))

    def call(self, x):
        tr = x.c.get('trait') or ''
        if tr in ('nom::Compare', 'nom::FindSubstring') and x.ip.prog.body_of(x.c) is None:
            r = x.st.opaque(x.dty, ('delegated', 0))
            a = deep(x.st, x.a[0])
            x.st.gh['delegated'] = ('T', ('K', x.m), a, x.a[1])
            return one(x.st, r)
        if tr.startswith('std::ops::Fn') and x.ip.prog.body_of(x.c) is None and self.predicate is not None:
            f = deep(x.st, x.a[0])
            if f == self.predicate:
                return self.ask(x, x.a[1][3][0])
        return None

    def ask(self, x, byte):
        """the caller's predicate on one byte: unknown answer, remembered for the fixed position w"""
        st = x.st
        byte = deep(st, byte)
        e = byte[1]
        if byte[0] != 'i' or e[0] or len(e[1]) != 1 or e[1][0][0][0] != 'B':
            raise Unsupported('predicate asked about %s' % show(byte))
        pos = e[1][0][0][2]
        d = lsub(pos, self.w)
        r = st.ev(('eq', d) if not is_const(d) else d[0] == 0)
        if r is None:
            raise Split([('eq', d), ('ge', addc(d, -1)), ('ge', addc(scale(d, -1), -1))])
        out = []
        for ans in (True, False):
            s2 = st.copy()
            if r:
                if s2.gh.get('pw', ('K', ans)) != ('K', ans):
                    continue
                s2.gh['pw'] = ('K', ans)
            if ans:
                s2.gh['hit'] = ('L', pos)
            out.append((s2, ('b', ans)))
        return out

def run(ctx, env, body, st, args):
    """final states of a call"""
    ip = env.ip
    s = st.copy()
    s.ret = None
    env.panicked = []
    ip.incomplete = {}
    ip.push(s, body.id, args, None, None)
    terms = ip.explore([s])
    for k, v in ip.incomplete.items():
        ctx.incomplete.setdefault(k, v or [body.path])
    ctx.funcs |= ip.funcs
    return terms

@reg('C19')
def c19(ctx):
    prog = ctx.prog
    env = WinEnv(prog)
    ip = ctx.make(env)
    R = {}
    for k, suffix in (('from', "ByteSlice<'a> as std::convert::From<&'a bytes::Bytes>>::from"),
                      ('slice', "ByteSlice<'a> as nom::Slice<std::ops::Range<usize>>>::slice"),
                      ('to', "ByteSlice<'a> as nom::Slice<std::ops::RangeTo<usize>>>::slice"),
                      ('fromr', "ByteSlice<'a> as nom::Slice<std::ops::RangeFrom<usize>>>::slice"),
                      ('full', "ByteSlice<'a> as nom::Slice<std::ops::RangeFull>>::slice"),
                      ('deref', "ByteSlice<'a> as std::ops::Deref>::deref"),
                      ('len', "ByteSlice::<'a>::len"), ('promote', "ByteSlice::<'a>::promote"), ('demote', "ByteSlice::<'a>::demote"),
                      ('utf8', "ByteSlice::<'a>::into_utf8"), ('input_len', "ByteSlice<'a> as nom::InputLength>::input_len"),
                      ('slice_index', "ByteSlice<'a> as nom::InputIter>::slice_index"),
                      ('position', "ByteSlice<'a> as nom::InputIter>::position"),
                      ('elements', "ByteSlice<'a> as nom::InputIter>::iter_elements"),
                      ('indices', "ByteSlice<'a> as nom::InputIter>::iter_indices"),
                      ('compare', "ByteSlice<'a> as nom::Compare<T>>::compare"),
                      ('compare_no_case', "ByteSlice<'a> as nom::Compare<T>>::compare_no_case"),
                      ('find', "ByteSlice<'a> as nom::FindSubstring<T>>::find_substring")):
        R[k] = ctx.root(suffix, 'smtp_message')
    if R['from'] is None or R['slice'] is None:
        return
    st = ip.new_state()
    buf = ('S', (('sub', ('buf', 0), const(0), lin.sym(('o', ('n', 0)))),))
    n = lin.sym(('o', ('n', 0)))
    st.cons = frozenset([n])
    where = R['slice'].span

    def content(s, v, lo, hi, what, b):
        """window v denotes buf[lo, hi)"""
        want = ('S', (('sub', ('buf', 0), lo, hi),))
        got = v
        try:
            got = seqv(s, v)
        except Unsupported:
            pass
        ok = got[0] == 'S' and (segs_eq(s, got[1], want[1]))
        ctx.ob(what, ok, b.span, 'denotes %s instead of %s' % (show(got)[:80], show(want)), [b.path])
        return ok

    def nopanic(b, what='never aborts'):
        for kind, span, s, stack in env.panicked:
            ctx.ob(what, False, str(span), 'abort: ' + kind, [b.path])
        ctx.ob(what, True)

    def derefs(s, v, lo, hi, what, b):
        for t in run(ctx, env, R['deref'], s, [('V', v)]) if R['deref'] else []:
            content(t, t.ret, lo, hi, what, b)
        nopanic(b, 'a window can always be read')

    v0 = None
    for t in run(ctx, env, R['from'], st, [('V', buf)]):
        v0 = t.ret
        derefs(t, v0, const(0), n, 'a window on a whole buffer denotes all of it', R['from'])
    nopanic(R['from'])
    if v0 is None:
        return
    a, b_ = lin.sym(('o', ('a', 0))), lin.sym(('o', ('b', 0)))
    RT = prog.types

    def rty(body, i=2):
        return body.locals[i]

    def cut(s0, v, lo, hi, c, d, what):
        """slice(c..d) of a window denoting [lo, hi); returns successful states"""
        body = R['slice']
        s = s0.copy()
        s.cons = s.cons | frozenset([c, d])
        terms = run(ctx, env, body, s, [('V', v), ('A', rty(body), 0, (I(c), I(d)))])
        out = []
        ln = lsub(hi, lo)
        for kind, span, p, stack in env.panicked:
            # refused: the request must reach outside or be reversed
            p = p.copy()
            ok = not (p.assume(('ge', lsub(d, c))) and p.assume(('ge', lsub(ln, d))))
            ctx.ob('a request inside the window is granted', ok, str(span), 'a request inside the window is refused (%s)' % kind, [body.path])
        for t in terms:
            inside = t.ent(lsub(d, c)) and t.ent(lsub(ln, d))
            ctx.ob('a request reaching outside the window is refused', inside, body.span,
                   'a window can be cut that reaches outside the one it is cut from', [body.path], key='outside|' + what)
            # judged further only where the request was inside
            if t.assume(('ge', lsub(d, c))) and t.assume(('ge', lsub(ln, d))):
                out.append(t)
        return out

    for t1 in cut(st, v0, const(0), n, a, b_, 'first cut'):
        v1 = t1.ret
        derefs(t1, v1, a, b_, 'a cut denotes exactly the requested bytes', R['slice'])
        ln = lsub(b_, a)
        c, d = lin.sym(('o', ('c', 0))), lin.sym(('o', ('d', 0)))
        for t2 in cut(t1, v1, a, b_, c, d, 'second cut'):
            v2 = t2.ret
            derefs(t2, v2, add(a, c), add(a, d), 'a cut denotes exactly the requested bytes', R['slice'])
            f = Subst({('o', ('a', 0)): add(a, c), ('o', ('b', 0)): add(a, d)})
            ctx.ob('cutting again yields the same kind of window', same_val(t2, f.val(v1), v2), where,
                   'a window cut twice differs from one cut once: %s' % show(v2)[:100], [R['slice'].path])
        # a..
        if R['fromr']:
            s = t1.copy()
            s.cons = s.cons | frozenset([c])
            for t in run(ctx, env, R['fromr'], s, [('V', v1), ('A', rty(R['fromr']), 0, (I(c),))]):
                ins = t.ent(lsub(ln, c))
                ctx.ob('a request reaching outside the window is refused', ins, R['fromr'].span, 'an open-ended window can start outside', [R['fromr'].path])
                if t.assume(('ge', lsub(ln, c))):
                    derefs(t, t.ret, add(a, c), b_, 'a cut denotes exactly the requested bytes', R['fromr'])
            refused(ctx, run_panics(ctx, env, R['fromr'], s, [('V', v1), ('A', rty(R['fromr']), 0, (I(c),))]), lambda p: p.assume(('ge', lsub(ln, c))), R['fromr'])
        if R['to']:
            s = t1.copy()
            s.cons = s.cons | frozenset([d])
            args = [('V', v1), ('A', rty(R['to']), 0, (I(d),))]
            for t in run(ctx, env, R['to'], s, args):
                ins = t.ent(lsub(ln, d))
                ctx.ob('a request reaching outside the window is refused', ins, R['to'].span, 'a window can end outside', [R['to'].path])
                if t.assume(('ge', lsub(ln, d))):
                    derefs(t, t.ret, a, add(a, d), 'a cut denotes exactly the requested bytes', R['to'])
            refused(ctx, run_panics(ctx, env, R['to'], s, args), lambda p: p.assume(('ge', lsub(ln, d))), R['to'])
        if R['full']:
            for t in run(ctx, env, R['full'], t1, [('V', v1), ('A', rty(R['full']), 0, ())]):
                derefs(t, t.ret, a, b_, 'a full cut is the window itself', R['full'])
            nopanic(R['full'])
        for k in ('len', 'input_len'):
            if R[k]:
                for t in run(ctx, env, R[k], t1, [('V', v1)]):
                    ctx.ob('the length is that of the window', t.ret[0] == 'i' and t.ent_eq(lsub(t.ret[1], ln)), R[k].span,
                           'length %s, expected %s' % (show(t.ret), lin.show(ln)), [R[k].path])
                nopanic(R[k])
        for k in ('promote', 'demote', 'utf8'):
            body = R[k]
            if not body:
                continue
            arg = ('V', v1) if prog.types[body.locals[1]]['k'] == 'ref' else v1
            for t in run(ctx, env, body, t1, [arg]):
                r = t.ret
                if k == 'utf8':
                    if t.variant_of(r) == 1:
                        ctx.ob('text conversion fails only for invalid text', True)
                        continue
                    r = t.proj(t.proj(r, ('d', 0)), ('f', 0, None))
                content(t, r, a, b_, 'taking the bytes out yields exactly the window', body)
            nopanic(body)
        if R['slice_index']:
            body = R['slice_index']
            s = t1.copy()
            s.cons = s.cons | frozenset([c])
            for t in run(ctx, env, body, s, [('V', v1), I(c)]):
                if t.variant_of(t.ret) == 1:
                    k = t.proj(t.proj(t.ret, ('d', 1)), ('f', 0, None))[1]
                    ctx.ob('a position is granted only inside the window', t.ent(lsub(ln, c)) and t.ent_eq(lsub(k, c)), body.span,
                           'position outside the window', [body.path])
                else:
                    ctx.ob('a position inside the window is granted', t.ent(addc(lsub(c, ln), -1)), body.span, 'position inside the window refused', [body.path])
            nopanic(body)
        for k in ('compare', 'compare_no_case', 'find'):
            body = R[k]
            if not body:
                continue
            arg = ('O', body.locals[2], ('t', 0))
            for t in run(ctx, env, body, t1, [('V', v1), arg]):
                g = t.gh.get('delegated')
                ok = g is not None and t.ret[0] == 'O' and t.ret[2] == ('delegated', 0) and g[3] == arg and g[1] == ('K', body.method)
                if ok:
                    content(t, g[2], a, b_, 'comparing and searching look at exactly the window', body)
                else:
                    ctx.ob('comparing and searching are those of the plain bytes', False, body.span,
                           'the result is not that of the plain byte slice', [body.path])
            nopanic(body)
        for k in ('elements', 'indices'):
            body = R[k]
            if body:
                for t in run(ctx, env, body, t1, [('V', v1)]):
                    it = find_iter(t.ret)
                    if it is None:
                        ctx.incomplete.setdefault('iterator of unknown shape', [body.path])
                        continue
                    s, lo, hi = it[2][0], it[2][1][1], it[2][2][1]
                    content(t, t.slice(s, lo, hi), a, b_, 'iterating visits exactly the window', body)
                    elem_fn(ctx, ip, t, t.ret, body)
                    if k == 'indices':
                        cs = consts_in(t.ret)
                        ctx.ob('indices start at zero', cs == [0], body.span, 'counting starts at %s' % cs, [body.path])
                nopanic(body)
        if R['position']:
            body = R['position']
            s = t1.copy()
            w = lin.sym(('o', ('w', 0)))
            env.w = add(a, w)
            env.predicate = ('O', body.locals[2], ('pred', 0))
            for empty in (True, False):
                s1 = s.copy()
                if empty:
                    if not s1.assume(('eq', ln)):
                        continue
                else:
                    s1.cons = s1.cons | frozenset([w, addc(lsub(ln, w), -1)])
                for t in run(ctx, env, body, s1, [('V', v1), env.predicate]):
                    ctx_position(ctx, ip, t, env, body, ln, w, empty)
                nopanic(body)

def ctx_position(ctx, ip, t0, env, body, ln, w, empty):
    def judge(t):
        pw = t.gh.get('pw')
        if t.variant_of(t.ret) == 0:
            ctx.ob('searching reports nothing only if no byte matches', empty or pw == ('K', False), body.span, 'a matching byte can be missed', [body.path])
            return
        k = t.proj(t.proj(t.ret, ('d', 1)), ('f', 0, None))[1]
        ctx.ob('a found position lies in the window', not empty and t.ent(k) and t.ent(addc(lsub(ln, k), -1)), body.span,
               'position %s' % lin.show(k), [body.path])
        if empty:
            return
        d = lsub(w, k)
        r = t.ev(('eq', d) if not is_const(d) else d[0] == 0)
        if r is None:
            raise Split([('eq', d), ('ge', addc(d, -1)), ('ge', addc(scale(d, -1), -1))])
        if r:
            ctx.ob('the byte found matches', pw == ('K', True), body.span, 'the byte found does not match', [body.path])
        elif t.ent(addc(scale(d, -1), -1)):
            ctx.ob('the first match is found', pw == ('K', False), body.span, 'an earlier matching byte is passed over', [body.path])
    ip.guarded(t0, judge)

def run_panics(ctx, env, body, s, args):
    run(ctx, env, body, s, args)
    return list(env.panicked)

def refused(ctx, ps, inside, body):
    for kind, span, p, stack in ps:
        p = p.copy()
        ctx.ob('a request inside the window is granted', not inside(p), str(span), 'a request inside the window is refused (%s)' % kind, [body.path])

def find_iter(v):
    if v[0] == 'N' and v[1] == 'iter' or v[0] == 'N' and v[1] == 'biter':
        return v
    if v[0] == 'A':
        for f in v[3]:
            r = find_iter(f)
            if r is not None:
                return r
    return None

def consts_in(v):
    if v[0] == 'i' and is_const(v[1]):
        return [v[1][0]]
    if v[0] == 'A':
        return [x for f in v[3] for x in consts_in(f)]
    return []

def elem_fn(ctx, ip, st, v, body):
    """the function mapped over the bytes yields the byte itself"""
    fns = []
    def rec(v):
        if v[0] in ('F', 'FB'):
            fns.append(v)
        elif v[0] == 'A':
            t = ip.prog.types[v[1]] if v[1] is not None else None
            if t is not None and t['k'] == 'closure':
                fns.append(v)
                return
            for f in v[3]:
                rec(f)
    rec(v)
    for f in fns:
        s = st.copy()
        s.gh = {}
        byte = ('i', lin.sym(('B', ('buf', 0), lin.sym(('o', ('a', 0))))))
        s.mem[('H', 'top')] = U
        s.frames = ()
        ip.incomplete = {}
        init = ip.apply(s, f, [('V', byte)], (('H', 'top'), ()), None, None)
        for s2 in init:
            pass
        terms = ip.explore(init)
        for k, w in ip.incomplete.items():
            ctx.incomplete.setdefault(k, w or [body.path])
        for t in terms:
            ctx.ob('iterating yields the bytes unchanged', t.ret == byte, body.span, 'yields %s' % show(t.ret), [body.path])

def same_val(st, x, y):
    if x == y:
        return True
    if x[0] != y[0]:
        return False
    if x[0] == 'i':
        return st.ent_eq(lsub(x[1], y[1]))
    if x[0] == 'A':
        return x[2] == y[2] and len(x[3]) == len(y[3]) and all(same_val(st, p, q) for p, q in zip(x[3], y[3]))
    if x[0] == 'S':
        return segs_eq(st, x[1], y[1])
    if x[0] == 'V':
        return same_val(st, x[1], y[1])
    return False

def segs_eq(st, a, b):
    a, b = st.mergesegs(a), st.mergesegs(b)
    if a == b:
        return True
    la, lb = seglen(a), seglen(b)
    if not st.ent_eq(lsub(la, lb)):
        return False
    if st.ent_eq(la):
        return True
    a, b = ([x for x in y if not st.ent_eq(seglen((x,)))] for y in (a, b))
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == 'sub':
            if x[1] != y[1] or not st.ent_eq(lsub(x[2], y[2])) or not st.ent_eq(lsub(x[3], y[3])):
                return False
        elif x[0] == 'byt':
            if not st.ent_eq(lsub(x[1], y[1])):
                return False
        elif x != y:
            return False
    return True
