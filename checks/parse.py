"""C18: the parse entry points.  The grammar function they call is replaced by an arbitrary answer (done with
an arbitrary rest and result, error, incomplete); what the entry point makes of it is judged on every path."""
from checks.registry import reg
from checks.base import *
from checks.window import run, segs_eq
import lin
from lin import const, addc, sub as lsub
from interp import *
from models import *

def entry_points(prog, crate='smtp_message'):
    """functions of the crate that turn an input into Result<_, ParseError>"""
    out = []
    for r in prog.bodies:
        b = r
        if not b.local or b.kind != 'fn' or b.crate != crate or b.argc != 1:
            continue
        t = prog.types[b.locals[0]]
        if not (t['k'] == 'adt' and t['p'] == 'std::result::Result' and len(t['a']) == 2):
            continue
        e = prog.types[t['a'][1]]
        if not (e['k'] == 'adt' and e['p'].endswith('ParseError')):
            continue
        i = prog.types[b.locals[1]]
        if i['k'] == 'adt' and i['p'].endswith('IResult'):
            continue
        out.append(b)
    return out

class ParseEnv(Env):
    def __init__(self, prog, ctx):
        Env.__init__(self, prog)
        self.panicked = []
    def panic(self, ip, st, kind, span):
        self.panicked.append((kind, span, st.copy(), ip.where(st)))
    def call(self, x):
        t = self.prog.types[x.dty] if x.dty is not None else None
        if t is None or t['k'] != 'adt' or not t['p'].endswith('nom::IResult'):
            return None
        b = x.ip.prog.body_of(x.c)
        st = x.st
        if b is None or not prog_local(x.ip.prog, b) or len(x.a) != 1:
            return None
        if 'parse' in st.gh:
            self.ctx.ob('the grammar is applied once', False, str(x.span), 'the input is handed to the grammar twice', x.ip.where(st))
        self.ctx.ob('the grammar is applied once', True)
        inp = freeze(st, x.a[0])
        out = []
        for k, vn in ((0, 'Done'), (1, 'Error'), (2, 'Incomplete')):
            s = st.copy()
            fs = t['v'][k]['f']
            if t['v'][k]['n'] != vn:
                raise Unsupported('variants of IResult')
            vals = tuple(self.rest if k == 0 and i == 0 else s.opaque(f['t'], ('nom', vn, i)) for i, f in enumerate(fs))
            s.gh['parse'] = ('T', ('K', k), inp, *vals)
            out.append((s, ('A', x.dty, k, vals)))
        return out

def judge_entry(ctx, env, b, R, exact=False):
    prog, ip = ctx.prog, env.ip
    st = ip.new_state()
    n = lin.sym(('o', ('n', 0)))
    st.cons = frozenset([n])
    buf = ('S', (('sub', ('buf', 0), const(0), n),))
    t = prog.types[b.locals[1]]
    lo, hi = const(0), n
    starts = [(st, buf)]
    if t['k'] == 'ref':
        starts = [(st, ('V', buf))]
    elif t['k'] == 'adt' and t['p'].endswith('ByteSlice'):
        lo, hi = lin.sym(('o', ('a', 0))), lin.sym(('o', ('b', 0)))
        st.cons = st.cons | frozenset([lo, lsub(hi, lo), lsub(n, hi)])
        starts = []
        for s in run(ctx, env, R['from'], st, [('V', buf)]):
            for s2 in run(ctx, env, R['slice'], s, [('V', s.ret), ('A', R['slice'].locals[2], 0, (I(lo), I(hi)))]):
                starts.append((s2, s2.ret))
    want = ('S', (('sub', ('buf', 0), lo, hi),))
    # the rest the grammar leaves: any window
    m, c, d = (lin.sym(('o', (k, 0))) for k in 'mcd')
    st.cons = st.cons | frozenset([c, lsub(d, c), lsub(m, d)])
    rests = [s2.ret for s in run(ctx, env, R['from'], st, [('V', ('S', (('sub', ('buf', 1), const(0), m),)))])
             for s2 in run(ctx, env, R['slice'], s, [('V', s.ret), ('A', R['slice'].locals[2], 0, (I(c), I(d)))])]
    if ctx.fresh():
        return
    if len(rests) != 1:
        raise Unsupported('windows are not built in one way')
    env.rest = rests[0]
    seen = 0
    for s, v in starts:
        s = s.copy()
        s.cons = s.cons | frozenset([c, lsub(d, c), lsub(m, d)])
        terms = run(ctx, env, b, s, [v])
        for kind, span, p, stack in list(env.panicked):
            ctx.ob('parsing reports errors instead of aborting', False, str(span), 'abort: ' + kind, stack or [b.path])
        for t in terms:
            seen += 1
            var = t.variant_of(t.ret)
            p = t.gh.get('parse')
            if p is None:
                ctx.ob('a result comes from the grammar', var != 0, b.span, 'success without consulting the grammar', [b.path])
                if var == 1 and exact and not t.ent(addc(lsub(const(0), lsub(hi, lo)), 5)):
                    # the shortest reply and command lines have six bytes
                    if t.bm or t.bf:
                        raise Unsupported('%s refuses some inputs without consulting the grammar' % b.path)
                    ctx.ob('every input of a line\'s length reaches the grammar', False, b.span, 'an input is refused without consulting the grammar', [b.path])
                continue
            k, inp = p[1][1], p[2]
            for w in run(ctx, env, R['deref'], t, [('V', inp)]):
                got = seqv(w, w.ret)
                ctx.ob('the grammar sees the whole input and nothing else', segs_eq(w, got[1], want[1]), b.span,
                       'the grammar is applied to %s instead of %s' % (show(got)[:80], show(want)[:80]), [b.path])
            if k == 0:
                rem, val = p[3], p[4]
                for w in run(ctx, env, R['deref'], t, [('V', rem)]):
                    ln = slen(w, seqv(w, w.ret))
                    if var == 0:
                        ctx.ob('success only if nothing is left over', w.ent_eq(ln), b.span, 'success is reported although input is left over', [b.path])
                        got = t.proj(t.proj(t.ret, ('d', 0)), ('f', 0, None))
                        ctx.ob('the result is that of the grammar', freeze(t, got) == freeze(t, val), b.span, 'another result is returned: %s' % show(got)[:80], [b.path])
                    elif exact:
                        ctx.ob('complete input that matches is accepted', w.ent(addc(ln, -1)), b.span, 'an error is reported although the grammar matched the whole input', [b.path])
            else:
                ctx.ob('an input the grammar refuses is an error', var == 1, b.span,
                       'success is reported although the grammar %s' % ('failed' if k == 1 else 'asked for more input'), [b.path])
    if not seen and not ctx.fresh():
        ctx.incomplete.setdefault('no path through %s' % b.path, [b.path])

def whole_input(ctx, only=None, exact=False):
    """judge the parse entry points; only: a predicate on the function; exact: it must also accept what the grammar accepts"""
    env = ParseEnv(ctx.prog, ctx)
    ctx.make(env)
    R = {k: ctx.root(s, 'smtp_message') for k, s in (
        ('from', "ByteSlice<'a> as std::convert::From<&'a bytes::Bytes>>::from"),
        ('slice', "ByteSlice<'a> as nom::Slice<std::ops::Range<usize>>>::slice"),
        ('deref', "ByteSlice<'a> as std::ops::Deref>::deref"))}
    if None in R.values():
        return []
    es = [b for b in entry_points(ctx.prog) if only is None or only(b)]
    for b in es:
        judge_entry(ctx, env, b, R, exact)
    ctx.note('entry_points', sorted(b.path for b in es))
    return es

@reg('C18')
def c18(ctx):
    es = whole_input(ctx)
    ctx.ob('there are parse functions', len(es) > 0, 'smtp-message', 'no parse function found')
    ctx.assumptions.append('the grammar functions return an arbitrary result; what they accept is decided by C13 and C14')

def prog_local(prog, b):
    return prog.bodies[b].local if isinstance(b, int) else b.local

def freeze(st, v):
    """the value with every reference replaced by what it points to"""
    if v[0] == 'R':
        return ('V', freeze(st, st.deref(v)))
    if v[0] == 'V':
        return ('V', freeze(st, v[1]))
    if v[0] == 'A':
        return v[:3] + (tuple(freeze(st, f) for f in v[3]),)
    return v
