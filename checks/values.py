"""C34: texts, addresses and commands hold exactly what they were given.  Every constructor is run on arbitrary arguments,
every accessor on what the constructor returned."""
from checks.registry import reg
from checks.base import *
from checks.window import segs_eq, run, WinEnv
from checks.session import root_sym
from checks.reply import bytes_in
import lin
from lin import const, add, addc, sub as lsub, scale, is_const
from interp import *
from models import *

# constructor, its parameters by the accessor that has to give them back
HOLDERS = [
    ('EhloCommand', 'new', ['domain']), ('HeloCommand', 'new', ['domain']), ('ExpnCommand', 'new', ['name']), ('VrfyCommand', 'new', ['name']),
    ('HelpCommand', 'new', ['subject']), ('NoopCommand', 'new', ['string']), ('Email', 'new', ['raw_localpart', 'hostname']),
    ('MailCommand', 'new', ['.from', '.params']), ('RcptCommand', 'new', ['.to', '.params']),
]

class ValEnv(WinEnv):
    """an arbitrary thing that writes itself"""
    def call(self, x):
        tr = x.c.get('trait') or ''
        if tr.endswith('Sendable') and x.m == 'send_to' and x.ip.prog.body_of(x.c) is None:
            st = x.st
            w = x.a[1]
            for _ in range(6):
                v = st.load(w[1], w[2]) if w[0] == 'R' else None
                if v is None or v[0] != 'R':
                    break
                w = v
            if w[0] != 'R' or seqv(st, w)[0] != 'S':
                raise Unsupported('written to %s' % show(x.a[1])[:60])
            bad = st.copy()
            bad.gh['failed'] = ('K', True)
            cur = seqv(st, w)[1]
            st.store(w[1], w[2], ('S', st.concat(cur, (('sub', ('out', 0), const(0), OUT),))))
            return [(st, OK(UNIT)), (bad, ERR(('O', None, ('WRITE ERROR', 0))))]
        return WinEnv.call(self, x)

N, M2, OUT = lin.sym(('o', ('n', 0))), lin.sym(('o', ('m', 0))), lin.sym(('o', ('outlen', 0)))
def tape(name, n):
    return ('S', (('sub', (name, 0), const(0), n),))

def alike(st, got, want):
    """is got the unknown value want, be it as a whole or put together again from its parts?"""
    got = collapse(got)
    r = root_sym(st, got)
    if got == want or r is not None and r == root_sym(st, want):
        return True
    if got[0] != 'A' or want[0] not in ('O', 'A'):
        return False
    vs = st.ip.prog.types[want[1]]['v']
    k = st.variant_of(want) if len(vs) > 1 else 0
    if k != (got[2] or 0):
        return False
    w = st.proj(want, ('d', k)) if len(vs) > 1 else want
    fs = vs[k]['f']
    return len(fs) == len(got[3]) and all(alike(st, deep(st, g), collapse(st.proj(w, ('f', i, f['t'])))) for i, (g, f) in enumerate(zip(got[3], fs)))

@reg('C34')
def c34(ctx):
    prog = ctx.prog
    env = ValEnv(prog)
    ip = ctx.make(env)
    root = lambda s: ctx.root(s, 'smtp_message')

    def start():
        st = ip.new_state()
        st.cons = frozenset([N, M2, OUT])
        return st

    def call(body, st, args, what='never aborts'):
        ts = run(ctx, env, body, st, args)
        for kind, span, s, stack in env.panicked:
            ctx.ob(what, False, str(span), 'abort: ' + kind, [body.path])
        ctx.ob(what, True)
        return ts

    def text(t, v, want, what, body):
        try:
            got = seqv(t, v)
        except Unsupported:
            got = deep(t, v)
        ok = got[0] == 'S' and segs_eq(t, got[1], want[1])
        ctx.ob(what, ok, body.span, 'is %s instead of %s' % (show(got)[:80], show(want)), [body.path])
        return ok

    # -- texts
    bytes_of = root('SmtpString::bytes')
    S = tape('buf', N)
    if bytes_of is None:
        return
    def content(t, v, want, what, body):
        cell = t.newheap(v)
        for t2 in call(bytes_of, t, [('R', cell, ())]):
            text(t2, t2.ret, want, what, body)
    for suffix, byref in (("SmtpString as std::convert::From<bytes::Bytes>>::from", False), ("SmtpString as std::convert::From<std::vec::Vec<u8>>>::from", False),
                          ("SmtpString as std::convert::From<&'a [u8]>>::from", True), ("SmtpString as std::convert::From<&'a str>>::from", True),
                          ('SmtpString::from_static', True)):
        b = root(suffix)
        if b is not None:
            for t in call(b, start(), [('V', S) if byref else S]):
                content(t, t.ret, S, 'a text holds the bytes it was made from', b)
    made = None
    b = root("SmtpString as std::convert::From<bytes::Bytes>>::from")
    def texts(st, v):
        """the text made of the bytes v"""
        return [(t, t.ret) for t in call(b, st, [v])]
    if b is None:
        return
    for name, want in (('iter_bytes', None), ('byte_len', None), ('byte', None), ('send_to', None), ('add', None), ('eq', None), ('byte_chunks', None)):
        f = root({'send_to': 'SmtpString as sendable::Sendable>::send_to', 'add': 'SmtpString as std::ops::Add>::add', 'eq': 'SmtpString as std::cmp::PartialEq>::eq'}.get(name, 'SmtpString::' + name))
        if f is None or name in ('send_to', 'byte_chunks'):       # C17 and C28, C11
            continue
        for t, v in texts(start(), S):
            r = ('R', t.newheap(v), ())
            if name == 'iter_bytes':
                for t2 in call(f, t, [r]):
                    it = t2.ret
                    ok = it[0] == 'N' and it[1] == 'iter' and it[2][1][1] == const(0)
                    if not ok:
                        raise Unsupported('iterator %s' % show(it)[:60])
                    text(t2, ('V', t2.slice(it[2][0], it[2][1][1], it[2][2][1])), S, 'iterating a text gives its bytes', f)
            elif name == 'byte_len':
                for t2 in call(f, t, [r]):
                    ctx.ob('the length of a text is its number of bytes', t2.ent_eq(lsub(t2.ret[1], N)), f.span, 'length %s' % show(t2.ret), [f.path])
            elif name == 'byte':
                k = lin.sym(('o', ('k', 0)))
                t.cons = t.cons | frozenset([k])
                for t2 in run(ctx, env, f, t, [r, ('i', k)]):
                    ctx.ob('a byte of a text is the one at that position', t2.ent(addc(lsub(N, k), -1)) and t2.ret == t2.index(S, k), f.span, 'gives %s' % show(t2.ret), [f.path])
                for kind, span, s, stack in env.panicked:
                    ctx.ob('every position of a text can be asked for', s.ent(lsub(k, N)), str(span), 'abort: ' + kind, [f.path])
            elif name == 'add':
                for t1, v2 in texts(t, tape('buf2', M2)):
                    for t2 in call(f, t1, [v, v2]):
                        content(t2, t2.ret, ('S', S[1] + tape('buf2', M2)[1]), 'texts are joined in order', f)
            elif name == 'eq':
                ty = prog.types[f.locals[1]]['e']
                va, vb = t.opaque(ty, ('a', 0)), t.opaque(ty, ('b', 0))
                ba, bb = bytes_in(t, va), bytes_in(t, vb)
                na, nb = slen(t, ba), slen(t, bb)
                for t2 in call(f, t, [('V', va), ('V', vb)]):
                    c = t2.ret[1]
                    if c is False:
                        ok = t2.ent(addc(lsub(na, nb), -1)) or t2.ent(addc(lsub(nb, na), -1))
                    elif c is True:
                        ok = t2.ent_eq(na) and t2.ent_eq(nb)
                    else:
                        ok = isinstance(c, tuple) and c[0] == 'sym' and c[1][:2] == ('cmp', 'Eq') and set(c[1][2:]) == set((symof(ba), symof(bb)))
                        if not ok:
                            raise Unsupported('equality as %r' % (c,))
                    ctx.ob('texts are equal exactly if their bytes are', ok, f.span, 'answers %r' % (c,), [f.path])
    f = root('SmtpString::from_sendable')
    if f is not None:
        for t in call(f, start(), [('V', ('O', None, ('thing', 0)))]):
            ok = t.variant_of(t.ret) == 0
            failed = bool(t.gh.get('failed'))
            ctx.ob('a failed write is reported', ok != failed, f.span, 'reports %s' % ('success' if ok else 'failure'), [f.path])
            if ok and not failed:
                content(t, t.proj(t.proj(t.ret, ('d', 0)), ('f', 0, None)), ('S', (('sub', ('out', 0), const(0), OUT),)), 'a text holds the bytes it was made from', f)

    # -- addresses and commands
    for ty, new, acc in HOLDERS:
        b = root('%s::%s' % (ty, new))
        if b is None:
            continue
        st = start()
        args = [st.opaque(b.locals[i + 1], ('given%d' % i, 0)) for i in range(b.argc)]
        for t in call(b, st, args):
            v = t.ret
            cell = t.newheap(v)
            for i, a in enumerate(acc):
                if a[0] == '.':
                    fs = prog.types[b.locals[0]]['v'][0]['f']
                    k = [j for j, f in enumerate(fs) if f['n'] == a[1:]]
                    if not k:
                        ctx.incomplete.setdefault('no field %s of %s' % (a, ty), [b.path])
                        continue
                    outs = [(t, t.proj(v, ('f', k[0], fs[k[0]]['t'])))]
                    f = b
                else:
                    f = root('%s::%s' % (ty, a))
                    if f is None:
                        continue
                    outs = [(t2, t2.ret) for t2 in call(f, t, [('R', cell, ())])]
                for t2, got in outs:
                    got = deep(t2, got)
                    ok = alike(t2, got, args[i])
                    ctx.ob('a value gives back what it was made from', ok, f.span, '%s of a %s is %s' % (a, ty, show(got)[:80]), [f.path])
    b = root('Parameters::none')
    if b is not None:
        for t in call(b, start(), []):
            v = collapse(t.ret)
            inner = v[3][0] if v[0] == 'A' else v
            ctx.ob('no parameters means none', inner[0] in ('Q', 'S') and not inner[1], b.span, 'holds %s' % show(v)[:80], [b.path])
    ctx.note('constructors', len(HOLDERS) + 7)
