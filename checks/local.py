"""C20: unquoting of local parts.

The raw local part is an unknown string RAW[0..n). Its form is what the parsers let through (decided from the grammar:
every captured local part is either free of quotes and backslashes, or `"` body `"` with the body made of pairs
`\\` any and of bytes other than `"` and `\\`). UN is the name of the result of unquoting RAW[1..n): UN[k] is the k-th byte
kept. A ghost reader walks along RAW with the code: p is the position it reached, j the number of bytes it kept, esc
whether it stands behind a backslash. A byte the code reads at p moves the ghost, and if the ghost keeps it the code gets
it under the name UN[j]; so that whatever the code collects in order is UN[a..b], and no other byte ever is."""
from checks.registry import reg
from checks.base import *
from checks import grammar
from checks.window import segs_eq, run
import fa, peg, rsyn
import lin
from lin import const, add, addc, sub as lsub, scale, is_const
from interp import *
from models import *

RAW, UN = ('raw', 0), ('un', 0)
N = lin.sym(('o', ('n', 0)))
BS, DQ = mask_bytes(b'\\'), mask_bytes(b'"')

class Quiet:
    """the same interpreter without the ghost reader's judgements"""
    def __init__(self, env, ip):
        self.ip = ip
        env.off = True

class LocalEnv(Env):
    quoted = off = False
    root = field = None

    def opaque(self, st, t, ty, sym):
        if sym == ('email', 0):
            return None
        return Env.opaque(self, st, t, ty, sym)

    def bytes_of(self, st, sym):
        s = sym
        while isinstance(s, tuple) and s and s[0] == '.':
            if s[1] == ('email', 0):
                if s[3] == self.field:
                    return ('S', (('sub', RAW, const(0), N),))
                break
            s = s[1]
        return Env.bytes_of(self, st, sym)

    def start(self, st):
        st.cons = frozenset([addc(N, -2 if self.quoted else -1)])
        if self.quoted:
            st.bm[(RAW, const(0))] = DQ
            st.bm[(RAW, addc(N, -1))] = DQ
            self.rewind(st)
        else:
            st.bm[(RAW, const(0))] = FULL & ~(DQ | BS)

    def on_byte(self, st, base, pos):
        if base not in (RAW, UN) or not self.quoted:
            return None
        p, j = st.gh['p'][1], st.gh['j'][1]
        if st.gh['kept'][1] and st.gh['closed'][1]:
            st.bm[(UN, addc(j, -1))] = DQ
        if base == UN:
            return None
        if self.holds(st, pos) is True:
            return None
        d = lsub(pos, p)
        r = st.ev(('eq', d) if not is_const(d) else d[0] == 0)
        if r is None:
            raise Split([('eq', d), ('not', ('eq', d))])
        if not r:
            if st.ent_eq(addc(d, 1)):
                # read again
                return lin.sym(('B', UN, addc(j, -1))) if st.gh['kept'][1] else const(92)
            if st.ent_eq(addc(pos, -1)):
                # from the start again
                self.rewind(st)
                p, j = const(1), const(0)
            elif st.gh['esc'][1] and st.ent_eq(addc(d, -1)):
                # an escaped byte passed over: it is kept, whatever it is
                self.newrun(st)
                p, j = addc(p, 1), addc(j, 1)
                self.put(st, p, j, False, True, False)
            else:
                return None
        last = addc(lsub(N, p), -1)
        e = st.ev(('eq', last) if not is_const(last) else last[0] == 0)
        if e is None:
            raise Split([('eq', last), ('ge', addc(last, -1))])
        esc = st.gh['esc'][1]
        if e:
            if esc:
                raise Infeasible()
            m = DQ
        elif esc:
            m = FULL
        else:
            m = FULL & ~DQ
            r = st.ev(('in', RAW, p, BS))
            if r is None:
                raise Split([('in', RAW, p, BS), ('not', ('in', RAW, p, BS))])
            if r:
                # the byte after a backslash is not the closing quote
                st.cons = st.cons | frozenset([addc(last, -2)])
                self.put(st, addc(p, 1), j, True, False, False)
                return const(92)
            m &= ~BS
        m &= st.bmask(RAW, p)
        if not m:
            raise Infeasible()
        if esc:
            self.newrun(st)
        st.bm[(UN, j)] = m
        self.put(st, addc(p, 1), addc(j, 1), False, True, bool(e))
        return lin.sym(('B', UN, j))

    def put(self, st, p, j, esc, kept, closed):
        st.gh['p'], st.gh['j'] = ('L', p), ('L', j)
        st.gh['esc'], st.gh['kept'], st.gh['closed'] = ('K', esc), ('K', kept), ('K', closed)

    def rewind(self, st):
        self.rename(st)
        self.put(st, const(1), const(0), False, False, False)
        st.gh['r'], st.gh['jr'] = ('L', const(1)), ('L', const(0))

    # RAW[r..] is UN[jr..] as far as nothing was dropped since
    def newrun(self, st):
        self.rename(st)
        st.gh['r'], st.gh['jr'] = st.gh['p'], st.gh['j']

    def runs(self, st):
        p, j, r, jr = (st.gh[k][1] for k in ('p', 'j', 'r', 'jr'))
        out = [(r, jr, lsub(j, jr))]
        if st.gh['esc'][1]:
            out.append((p, j, const(1)))
        return out

    def named(self, st, segs):
        """the pieces of RAW known to be pieces of UN under that name"""
        out = []
        for g in segs:
            if g[0] == 'sub' and g[1] == RAW:
                n = lsub(g[3], g[2])
                for r, jr, k in self.runs(st):
                    if st.ent_eq(lsub(g[2], r)) and st.ent(lsub(k, n)):
                        g = ('sub', UN, jr, add(jr, n))
                        break
            out.append(g)
        return tuple(out)

    def rename(self, st):
        if 'r' not in st.gh:
            return
        def rec(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == 'S' and any(g[0] == 'sub' and g[1] == RAW for g in v[1]):
                return ('S', st.mergesegs(self.named(st, v[1])))
            if v[0] == 'A':
                return v[:3] + (tuple(rec(x) for x in v[3]),)
            if v[0] == 'N':
                return v[:2] + (tuple(rec(x) for x in v[2]),)
            if v[0] == 'V':
                return ('V', rec(v[1]))
            return v
        for c in list(st.mem):
            w = rec(st.mem[c])
            if w != st.mem[c]:
                st.mem[c] = w

    def holds(self, st, pos):
        """the quotes themselves"""
        return st.ev(('eq', pos) if not is_const(pos) else pos[0] == 0)

    def normalise(self, ip, st):
        """a byte that is not the next of the unquoted text stays collected once more follow it"""
        if not self.quoted or self.off:
            return
        self.rename(st)
        def rec(v):
            if not isinstance(v, tuple) or not v:
                return
            if v[0] == 'S':
                segs = list(st.mergesegs(v[1]))
                if segs and segs[0][0] == 'sub' and segs[0][1] == RAW and st.ent_eq(segs[0][2]):
                    segs = segs[1:]
                segs = [g for g in segs[:3] if g[0] in ('sub', 'byt', 'lit')]
                foreign = [g for g in segs if g[0] in ('byt', 'lit') or g[1] == RAW and st.ent_eq(addc(lsub(g[3], g[2]), -1))]
                if len(segs) > 1 and (foreign and (segs[-1] not in foreign or len(foreign) > 1) or all(g[0] == 'sub' and g[1] == UN for g in segs)):
                    self.ctx.ob('a quoted local part is unquoted exactly', False, self.root.span, 'collected: %s' % show(('S', tuple(segs)))[:160], ip.where(st) or [self.root.path])
                    raise Unsupported('a wrong text is collected')
            elif v[0] in ('A', 'N'):
                for x in v[3 if v[0] == 'A' else 2]:
                    rec(x)
            elif v[0] == 'V':
                rec(v[1])
        for c in st.mem:
            rec(st.mem[c])

    def terminal(self, ip, st):
        if self.off:
            return
        ctx, b = self.ctx, self.root
        where = b.span
        if ip.debug: print('TERM', self.quoted, show(st.ret), [lin.show(c) for c in st.cons], st.gh)
        try:
            got = self.text(st, st.ret)
        except Unsupported:
            ctx.incomplete.setdefault('the local part is %s' % show(st.ret)[:80], ip.where(st) or [b.path])
            return
        ctx.sample('%s: %s' % ('quoted' if self.quoted else 'unquoted', show(got)[:100]))
        if not self.quoted:
            ctx.ob('an unquoted local part is returned as it is', segs_eq(st, got[1], (('sub', RAW, const(0), N),)), where,
                   'returned: %s' % show(got)[:100], [b.path])
        else:
            self.judge(st, got, where)

    def judge(self, st, got, where):
        ctx, b = self.ctx, self.root
        p, j = st.gh['p'][1], st.gh['j'][1]
        rule = 'a quoted local part is unquoted exactly'
        left = lsub(N, p)           # 0: the closing quote was read; 1: everything else was
        segs = st.mergesegs(self.named(st, got[1]))
        raws = [s for s in segs if s[0] == 'sub' and s[1] == RAW]
        allkept = st.ent_eq(addc(lsub(p, j), -1)) and not st.gh['esc'][1]
        if st.ent_eq(left):
            end = addc(j, -1)
        elif st.ent_eq(addc(left, -1)) and not st.gh['esc'][1]:
            end = j
        elif st.ent_eq(addc(left, -2)) and st.gh['esc'][1]:
            end = addc(j, 1)
        else:
            end = None
        if end is not None:
            ok = segs_eq(st, segs, (('sub', UN, const(0), end),))
            if not ok and raws and allkept:
                ok = segs_eq(st, segs, (('sub', RAW, const(1), addc(N, -1)),))
            if not ok and any(s[2:] not in ((const(0), N), (const(1), N), (const(0), addc(N, -1)), (const(1), addc(N, -1)), (const(0), const(1)), (addc(N, -1), N)) for s in raws):
                raise Unsupported('local part copied in pieces')
            ctx.ob(rule, ok, where, 'returned: %s; expected UN[0..%s]' % (show(('S', segs))[:100], lin.show(end)), [b.path])
            return
        if raws:
            if len(raws) == 1 and len(segs) == 1 and raws[0][2:] in ((const(0), N), (const(1), N), (const(0), addc(N, -1)), (const(1), addc(N, -1))):
                ctx.ob(rule, False, where, 'returned as it was read: %s' % show(('S', segs))[:100], [b.path])
                return
            raise Unsupported('local part copied in pieces')
        ctx.ob(rule, False, where, 'returned: %s, with the rest not looked at' % show(('S', segs))[:100], [b.path])

    def text(self, st, v):
        v = deep(st, v)
        for _ in range(6):
            if v[0] == 'S':
                return v
            if v[0] == 'O':
                v = deep(st, st.force(v)) if hasattr(st, 'force') else v
            if v[0] in ('A', 'N') and len(v[3 if v[0] == 'A' else 2]) == 1:
                v = deep(st, v[3 if v[0] == 'A' else 2][0])
                continue
            break
        return seqv(st, v)

    def panic(self, ip, st, kind, span):
        self.ctx.ob('unquoting a parsed local part never aborts', False, str(span), 'abort: %s on %s local part' % (kind, 'a quoted' if self.quoted else 'an unquoted'), ip.where(st))

@reg('C20')
@grammar.guarded
def c20(ctx):
    ctx.trusted0 = ['rustc front end (type and borrow checker, MIR construction)', 'driver/ (MIR dump)', 'engine/ (abstract interpreter)']
    # what local parts can be
    ps = grammar.Parsers(ctx)
    g = ps.g
    def go():
        r = grammar.Ref(g)
        q = g.word(b'"')
        any_ = g.setl(set(range(256)))
        plain = g.setl(set(range(256)) - {34, 92})
        form = fa.union(g.many_of(g.cls(set(range(256)) - {34, 92}), 1),
                        fa.concat(q, fa.star_(fa.union(plain, fa.concat(g.word(b'\\'), any_))), q))
        out = []
        for owner in ('Email', 'Command'):
            name, fn = ps.entry(owner)
            L, lab = peg.label(g, g.parser(name))
            for l in sorted(set(lab.values())):
                if l == 'Email.SmtpString' or l.endswith('.Email.SmtpString') or owner == 'Email' and l == 'SmtpString':
                    out.append((owner, name, l, fa.subset(peg.texts(L, l), form), sorted(set(lab.values()))))
            if not any(o[0] == owner for o in out):
                raise rsyn.Unsupported('no local part in what %s reads: %s' % (name, sorted(set(lab.values()))))
        return out
    for owner, name, l, w, labs in g.run(go):
        ctx.ob('a local part is free of quotes or quoted as a whole', w is None, ps.where(name), '%s can be %s' % (l, g.show(w) if w is not None else ''), [name])
    grammar.note(ctx, ps)
    ctx.trusted += [t for t in ctx.trusted0 if t not in ctx.trusted]
    # what is made of them
    b = ctx.root('Email::localpart', 'smtp_message')
    if b is None:
        return
    env0 = Env(ctx.prog)
    for quoted in (False, True):
        env = LocalEnv(ctx.prog)
        env.quoted, env.root = quoted, b
        ip = ctx.make(env)
        ip.on_byte = env.on_byte
        if not quoted:
            ip.basemask[RAW[0]] = FULL & ~(DQ | BS)
        ty = b.locals[1]['ty'] if isinstance(b.locals[1], dict) else b.locals[1]
        t = ctx.prog.types[ty]
        if t['k'] == 'ref':
            ty = t.get('t', t.get('e'))
            t = ctx.prog.types[ty]
        fs = t['v'][0]['f']
        hit = [i for i, f in enumerate(fs) if ctx.prog.types[f['t']].get('p', '').rsplit('::', 1)[-1] in ('SmtpString', 'Bytes', 'Vec', 'ByteSlice')]
        if len(hit) != 1:
            raise NotModelled('cannot tell which field of Email is the local part')
        env.field = hit[0]
        st = ip.new_state()
        env.start(st)
        ip.push(st, b.id, [('V', ('O', ty, ('email', 0)))], None, None)
        ctx.explore(ip, [st])
        # the raw form stays readable as it was parsed
        rb = ctx.root('Email::raw_localpart', 'smtp_message')
        bb = ctx.root('SmtpString::bytes', 'smtp_message')
        if rb is not None and bb is not None:
            st = ip.new_state()
            env.start(st)
            ip.on_byte = None
            for t in run(ctx, Quiet(env, ip), rb, st, [('V', ('O', ty, ('email', 0)))]):
                for u in run(ctx, env, bb, t, [t.ret]):
                    got = seqv(u, u.ret)
                    ctx.ob('the raw local part is what was parsed', segs_eq(u, got[1], (('sub', RAW, const(0), N),)), rb.span,
                           'returned: %s' % show(got)[:100], [rb.path])
    ctx.assumptions.append('an address built by hand (Email::new) with a local part no parser produces is outside the property')
NotModelled = Unsupported
