"""Stream checks: C24 (Prependable), C25 (line cutting), C21/C22 (data decoding), C23 (data encoding).

Each is a most general client: an arbitrary sequence of calls of the public operations of one object over a
source that answers every poll with "not ready", the next piece of an unknown endless tape T, or its end.
What the client must see is stated on tape positions only; the pieces the object keeps are not constrained."""
from checks.registry import reg
from checks.base import *
import lin
from lin import const, add, addc, sub as lsub, scale, is_const
from interp import *
from models import *

T = ('T', 0)
TRUE, FALSE = ('K', True), ('K', False)

def is_poll(x):
    return (x.c.get('trait') or '').endswith('::Stream') and x.m == 'poll_next' and x.ip.prog.body_of(x.c) is None

class ClientEnv(Env):
    """drives an object: native frame 0 is the client, its second component the stage"""
    def native_frame(self, ip, st, fr, d):
        if fr[0][1] == 'client':
            return self.client(ip, st, fr[1])
        return None

    def init(self, ip, st, stage):
        st.frames = ((('N', 'client'), stage, None, None, None),)

    def at(self, st, stage):
        fr = st.frames[0]
        st.frames = ((fr[0], stage) + fr[2:],)
        st.entry = True
        return st

    def go(self, ip, st, body, args, stage):
        """call body(args), then continue at stage"""
        st.mem.pop(('L', 0, 'ret'), None)
        ip.push(st, body.id, args, (('L', 0, 'ret'), ()), stage)
        return st

    def poll_fn(self, ip, st, cell, stage):
        """poll the coroutine held in cell"""
        co = st.load(cell, ())
        b = [b for b in ip.prog.bodies if b.kind == 'coroutine' and ip.prog.types[b.locals[1]] is not None and self.coro_ty(ip, b) == co[1]]
        if not b:
            raise Unsupported('body of the future %s' % show(co)[:60])
        st.mem.pop(('L', 0, 'ret'), None)
        return ip.models.poll_coroutine(ip, st, b[0].id, [TUP(('R', cell, ())), ('O', None, ('context', 0))], (('L', 0, 'ret'), ()), stage, None)

    def coro_ty(self, ip, b):
        t = b.locals[1]
        for _ in range(3):
            tt = ip.prog.types[t]
            if tt['k'] == 'ref':
                t = tt['e']
            elif tt['k'] == 'adt' and tt['p'].endswith('Pin'):
                t = tt['a'][0]
        return t

    def ret(self, st):
        return st.mem[('L', 0, 'ret')]

    def panic(self, ip, st, kind, span):
        self.on_panic(ip, st, kind, span)

    def on_panic(self, ip, st, kind, span):
        self.ctx.ob('never aborts', False, str(span), 'abort: %s' % kind, ip.where(st))

def pending(st, v):
    return st.variant_of(v) == 1

def some(st, v):
    """payload of Ready(Some(x)), or None for Ready(None)"""
    o = st.proj(st.proj(v, ('d', 0)), ('f', 0, None))
    if st.variant_of(o) == 0:
        return None
    return st.proj(st.proj(o, ('d', 1)), ('f', 0, None))

# ------------------------------------------------------------------------------------------ C24
class PrependEnv(ClientEnv):
    def call(self, x):
        if is_poll(x):
            st = x.st
            if 'got' in st.gh or 'idle' in st.gh:
                self.ctx.ob('the stream itself is asked once per poll and only then', False, str(x.span), 'the underlying stream is polled although nothing is asked of it', x.ip.where(st))
            a, b, c = st.copy(), st.copy(), st.copy()
            a.gh['got'] = ('K', 'pending')
            b.gh['got'] = ('K', 'end')
            i = c.gh['next'][1]
            c.gh['got'] = ('T', ('L', i))
            c.gh['next'] = ('L', addc(i, 1))
            item = ('O', self.itemty, ('elem', ('SRC', 0), i))
            return [(a, PENDING), (b, READY(NONE)), (c, READY(SOME(item)))]
        return None

    def client(self, ip, st, stage):
        ctx = self.ctx
        ref = ('R', ('L', 0, 'pre'), ())
        if stage == 'start':
            return [self.go(ip, st, self.new, [('O', self.new.locals[1], ('source', 0))], 'made')]
        if stage == 'made':
            st.mem[('L', 0, 'pre')] = st.mem.pop(('L', 0, 'ret'))
            return [self.at(st, 'loop')]
        if stage == 'loop':
            st.gh.pop('got', None)
            s2 = st.copy()
            it = ('pushed', ip.counter)
            ip.counter += 1
            s2.gh['new'] = ('Y', it)
            s2.gh['idle'] = TRUE
            self.go(ip, s2, self.prepend, [ref, ('O', self.prepend.locals[2], it)], 'pushed')
            return [self.go(ip, st, self.poll, [TUP(ref), ('O', None, ('context', 0))], 'polled'), s2]
        if stage == 'pushed':
            r = self.ret(st)
            ok = st.variant_of(r) == 0
            new = st.gh.pop('new')
            st.gh.pop('idle')
            had = 'pend' in st.gh
            ctx.ob('pushing back succeeds if nothing is pending', had or ok, self.prepend.span, 'pushing back is refused although nothing is pending', [self.prepend.path])
            ctx.ob('pushing back a second item is refused', not (had and ok), self.prepend.span, 'a second pushed-back item is accepted', [self.prepend.path])
            if ok and not had:
                st.gh['pend'] = new
            del st.mem[('L', 0, 'ret')]
            return [self.at(st, 'loop')]
        if stage == 'polled':
            r = self.ret(st)
            del st.mem[('L', 0, 'ret')]
            pend = st.gh.pop('pend', None)
            got = st.gh.pop('got', None)
            p = pending(st, r)
            v = None if p else some(st, r)
            what = 'pending' if p else 'end' if v is None else show(v)
            b = self.poll
            if pend is not None:
                ok = v is not None and v[0] == 'O' and v[2] == pend[1]
                ctx.ob('a pushed-back item is the next one', ok, b.span, 'a pushed-back item is not the next one yielded (%s)' % what, [b.path])
                ctx.ob('the stream itself waits while an item is pending', got is None, b.span, 'an item of the stream is taken (and lost) while a pushed-back one is pending', [b.path])
            elif got is None:
                ctx.ob('without a pushed-back item the stream itself is asked', False, b.span, 'yields %s without asking the stream' % what, [b.path])
            elif got[0] == 'K':
                ok = p if got[1] == 'pending' else (not p and v is None)
                ctx.ob('the answer of the stream is passed on', ok, b.span, 'the stream answers %s, the result is %s' % (got[1], what), [b.path])
            else:
                ok = v is not None and v[0] == 'O' and v[2][0] == 'elem' and v[2][1] == ('SRC', 0) and st.ent_eq(lsub(v[2][2], got[1][1]))
                ctx.ob('every item of the stream is yielded unchanged and once', ok, b.span, 'an item of the stream is lost or replaced by %s' % what, [b.path])
            return [self.at(st, 'loop')]

@reg('C24')
def c24(ctx):
    pushing(ctx)

def pushing(ctx, kind=PrependEnv):
    env = kind(ctx.prog)
    ip = ctx.make(env)
    env.new = ctx.root('Prependable::<S>::new', 'smtp_message')
    env.prepend = ctx.root('Prependable::<S>::prepend', 'smtp_message')
    env.poll = ctx.root('Prependable<S> as futures::Stream>::poll_next', 'smtp_message')
    if not (env.new and env.prepend and env.poll):
        return
    env.itemty = env.prepend.locals[2]
    st = ip.new_state()
    st.gh['next'] = ('L', const(0))
    env.init(ip, st, 'start')
    ctx.explore(ip, [st])
    ctx.note('client', 'any sequence of prepend and poll_next on a Prependable over any stream')

# ------------------------------------------------------------------------------------------ byte tapes
class TapeEnv(ClientEnv):
    """the source yields successive pieces of the tape T; gh['rp'] is how much it has yielded"""
    near = (-2, 2)      # positions are told apart by their distance to the observed position w within this

    def __init__(self, prog):
        Env.__init__(self, prog)
        self.w = lin.sym(('o', ('w', 0)))

    def call(self, x):
        if is_poll(x):
            return self.source(x)
        return None

    def source(self, x):
        st = x.st
        self.polled(x)
        a, b, c = st.copy(), st.copy(), st.copy()
        rp = st.gh['rp'][1]
        n = c.fresh('pkt', 0)
        c.gh['rp'] = ('L', add(rp, n))
        b.gh['fin'] = TRUE
        out = [(b, READY(NONE))]
        if not st.gh.get('fin'):
            out += [(a, PENDING), (c, READY(SOME(('S', (('sub', T, rp, add(rp, n)),)))))]
        return out

    def polled(self, x):
        pass

    # -- partition by the relation of positions to w
    def rel(self, st, pos):
        d = lsub(pos, self.w)
        lo, hi = self.near
        if is_const(d):
            return max(lo - 1, min(hi + 1, d[0]))
        if st.ent(addc(d, -hi - 1)):
            return hi + 1
        if st.ent(addc(scale(d, -1), lo - 1)):
            return lo - 1
        for k in range(lo, hi + 1):
            if st.ent_eq(addc(d, -k)):
                return k
        return None

    def split(self, st, pos):
        d = lsub(pos, self.w)
        lo, hi = self.near
        raise Split([('eq', addc(d, -k)) for k in range(lo, hi + 1)] +
                    [('ge', addc(d, -hi - 1)), ('ge', addc(scale(d, -1), lo - 1))])

    def known(self, st, pos):
        if self.rel(st, pos) is None:
            self.split(st, pos)

    def byte(self, st, base, pos):
        if base == T:
            self.known(st, pos)

    def setup(self, ip):
        ip.on_byte = self.byte

    def normalise(self, ip, st):
        """partition states by where the pieces they hold start relative to w"""
        starts, ints, spans = [], [], []
        def rec(v):
            if not isinstance(v, tuple) or not v:
                return
            if v[0] == 'S':
                for s in v[1]:
                    if s[0] == 'sub' and s[1] == T:
                        starts.append(s[2])
                        spans.append((s[2], s[3]))
            elif v[0] == 'i':
                ints.append(v[1])
            elif v[0] in ('A', 'N'):
                for x in v[3 if v[0] == 'A' else 2]:
                    rec(x)
            elif v[0] == 'V':
                rec(v[1])
        for c in sorted((c for c in st.mem if c[0] != 'X'), key=repr):
            rec(st.mem[c])
        rels = [self.rel(st, s) for s in starts]
        rels += [self.rel(st, st.gh[g][1]) for g in self.ghosts if g in st.gh]
        st.gh['cls'] = ('K', tuple(sorted(set(r if r is not None else 99 for r in rels))))
        # an index into a piece designates a position too; keep it apart likewise (and named, so that
        # merged states remember on which side of w it is)
        pos = []
        for s, e in dict.fromkeys(spans):
            for i in dict.fromkeys(ints):
                p = add(s, i)
                if p not in pos and p not in starts and p != e and st.ent(i) and st.ent(lsub(e, p)):
                    pos.append(p)
        st.gh['xcls'] = ('K', self.extra(st, list(dict.fromkeys(starts))))
        st.gh['icls'] = ('K', tuple(self.rel(st, p) for p in pos))
        st.gh['pos'] = TUP(*[('L', p) for p in pos])
    ghosts = ()
    def extra(self, st, starts):
        return ()

def tape(st, v):
    """[a, b) if v is exactly that piece of the tape; None otherwise"""
    try:
        v = seqv(st, v)
    except Unsupported:
        return None
    if v[0] != 'S':
        return None
    s = st.mergesegs(v[1])
    if not s:
        return ()
    if len(s) != 1 or s[0][0] != 'sub' or s[0][1] != T:
        return None
    return s[0][2], s[0][3]

# ------------------------------------------------------------------------------------------ C25
class LineEnv(TapeEnv):
    ghosts = ('c',)
    def client(self, ip, st, stage):
        ctx = self.ctx
        ref = ('R', ('L', 0, 'pre'), ())
        if stage == 'start':
            return [self.go(ip, st, self.new, [('O', self.new.locals[1], ('source', 0))], 'made')]
        if stage == 'made':
            st.mem[('L', 0, 'pre')] = st.mem.pop(('L', 0, 'ret'))
            return [self.at(st, 'loop')]
        if stage == 'loop':
            self.known(st, st.gh['c'][1])
            s2 = st.copy()
            self.go(ip, st, self.line, [ref], 'future')
            self.go(ip, s2, self.poll, [TUP(ref), ('O', None, ('context', 0))], 'polled')
            return [st, s2]
        if stage == 'future':
            st.mem[('L', 0, 'fut')] = st.mem.pop(('L', 0, 'ret'))
            return self.poll_fn(ip, st, ('L', 0, 'fut'), 'line')
        c = st.gh['c'][1]
        rp = st.gh['rp'][1]
        if stage == 'polled':
            # what is left of a cut line is still there, in order
            r = self.ret(st)
            v = None if pending(st, r) else some(st, r)
            del st.mem[('L', 0, 'ret')]
            if v is not None:
                t = tape(st, v)
                b = self.poll
                if t == ():
                    return [self.at(st, 'loop')]
                ok = t is not None and st.ent_eq(lsub(t[0], c))
                ctx.ob('what follows a line is kept, in order', ok, b.span, 'the next bytes are %s, expected from %s' % (show(v), lin.show(c)), [self.body.path])
                if not ok:
                    return []
                st.gh['c'] = ('L', t[1])
            elif not pending(st, r):
                ctx.ob('what follows a line is kept, in order', st.ent_eq(lsub(rp, c)), self.poll.span, 'bytes %s..%s are lost' % (lin.show(c), lin.show(rp)), [self.body.path])
            return [self.at(st, 'loop')]
        if stage == 'line':
            r = self.ret(st)
            del st.mem[('L', 0, 'ret')]
            st.mem.pop(('L', 0, 'fut'), None)
            o = st.proj(st.proj(r, ('d', 0)), ('f', 0, None))
            b = self.body
            w = self.w
            if st.variant_of(o) == 0:
                ctx.ob('no line is given up before the input ends', bool(st.gh.get('fin')), b.span, 'reports the end although the input has not ended', [b.path])
                # a complete line (line break at w) among the unread bytes
                s = st.copy()
                miss = s.assume(('ge', lsub(w, c))) and s.assume(('ge', addc(lsub(rp, w), -2)))
                ctx.ob('a complete line is never withheld', not miss, b.span, 'reports the end although a line break was received', [b.path])
                return [self.at(st, 'loop')]
            v = st.proj(st.proj(o, ('d', 1)), ('f', 0, None))
            t = tape(st, v)
            ok = t is not None and t != () and st.ent_eq(lsub(t[0], c))
            ctx.ob('a line starts where the one before ended', ok, b.span, 'the line is %s, expected from %s' % (show(v), lin.show(c)), [b.path])
            if not ok:
                return []
            e = t[1]
            ok = st.ent(addc(lsub(e, c), -2)) and st.bmask(T, addc(e, -2)) == 1 << 13 and st.bmask(T, addc(e, -1)) == 1 << 10
            ctx.ob('a line ends with CRLF', ok, b.span, 'a line that does not end with CRLF is yielded', [b.path])
            s = st.copy()
            early = s.assume(('ge', lsub(w, c))) and s.assume(('ge', addc(lsub(e, w), -3)))
            ctx.ob('a line ends at its first CRLF', not early, b.span, 'a line with another CRLF before its end is yielded', [b.path])
            st.gh['c'] = ('L', e)
            return [self.at(st, 'loop')]

@reg('C25')
def c25(ctx):
    cutting(ctx)

def cutting(ctx, kind=LineEnv):
    env = kind(ctx.prog)
    ip = ctx.make(env)
    env.setup(ip)
    env.new = ctx.root('Prependable::<S>::new', 'smtp_message')
    env.poll = ctx.root('Prependable<S> as futures::Stream>::poll_next', 'smtp_message')
    env.line = env.body = ctx.root('crlflines::next_crlf_line', 'smtp_server')
    if not (env.new and env.line and env.poll):
        return
    st = ip.new_state()
    st.gh['c'] = st.gh['rp'] = ('L', const(0))
    st.cons = frozenset([env.w])
    st.bm[T, env.w] = 1 << 13
    st.bm[T, addc(env.w, 1)] = 1 << 10
    env.init(ip, st, 'start')
    ctx.explore(ip, [st])
    ctx.note('client', 'any sequence of next_crlf_line and direct polls over any input in any packets; one CRLF at an arbitrary position observed')

# ------------------------------------------------------------------------------------------ C21, C22
CR, LF, DOT = 1 << 13, 1 << 10, 1 << 46
FULLM = (1 << 256) - 1

class DecodeEnv(TapeEnv):
    """a DataStream over a stream whose first unread byte is T[0]; one arbitrary position w observed, by cases:
    what w is to the transfer format is fixed beforehand (gh['case']), so every case is an own proof"""
    near = (-2, 3)
    ghosts = ('rp',)

    def judge(self, prop, rule, ok, where, msg, site):
        if prop == self.ctx.pid:
            self.ctx.ob(rule, ok, where, msg, site)

    def on_panic(self, ip, st, kind, span):
        for p in ('C21', 'C26'):
            self.judge(p, 'never aborts', False, str(span), 'abort: %s' % kind, ip.where(st))

    def source(self, x):
        st = x.st
        stage = st.gh['mode'][1]
        b = self.poll
        self.judge('C22', 'once ended, nothing is taken from the command stream', stage != 'ended', b.span,
                   'the command stream is polled although the mail data has ended', x.ip.where(st))
        if stage == 'ended':
            return []
        if stage == 'data':
            self.known(st, st.gh['rp'][1])
            self.judge('C22', 'the end marker is recognised as soon as it is received', not (self.case(st) == 'marker' and self.rel(st, st.gh['rp'][1]) >= 3),
                       b.span, 'waits for more input although the end marker has been received', x.ip.where(st))
            self.judge('C08', 'the input is not polled after its end', not st.gh.get('fin'), b.span, 'the input is polled again after its end', x.ip.where(st))
            if st.gh.get('fin'):
                return []
        return TapeEnv.source(self, x)

    def case(self, st):
        return st.gh['case'][1][1]

    def client(self, ip, st, stage):
        w = self.w
        pre = ('R', ('L', 0, 'pre'), ())
        ds = ('R', ('L', 0, 'ds'), ())
        cx = ('O', None, ('context', 0))
        b = self.poll
        site = [b.path]
        if stage == 'start':
            return [self.go(ip, st, self.pnew, [('O', self.pnew.locals[1], ('source', 0))], 'prep')]
        if stage == 'prep':
            st.mem[('L', 0, 'pre')] = st.mem.pop(('L', 0, 'ret'))
            s2 = st.copy()
            n = s2.fresh('pkt', 0)
            s2.gh['rp'] = ('L', n)
            self.go(ip, s2, self.prepend, [pre, ('S', (('sub', T, const(0), n),))], 'prepped')
            return [self.go(ip, st, self.new, [pre], 'made'), s2]
        if stage == 'prepped':
            st.mem.pop(('L', 0, 'ret'))
            return [self.go(ip, st, self.new, [pre], 'made')]
        if stage == 'made':
            st.mem[('L', 0, 'ds')] = st.mem.pop(('L', 0, 'ret'))
            return [self.at(st, 'loop')]
        if stage == 'loop':
            s2, s3 = st.copy(), st.copy()
            out = [self.go(ip, st, self.poll, [TUP(ds), cx], 'polled'), self.go(ip, s2, self.was, [ds], 'asked')]
            if self.ctx.pid == 'C06':
                out.append(self.go(ip, s3, self.complete, [ds], 'early'))
            return out
        if stage == 'early':
            # asked before it ended: success needs the end marker all the same
            r = st.mem.pop(('L', 0, 'ret'))
            if st.variant_of(r) != 0:
                return []
            st.gh['mode'] = ('K', 'rest')
            st.gh['early'] = TRUE
            return [self.go(ip, st, self.ppoll, [TUP(pre), cx], 'rest')]
        if stage == 'asked':
            r = st.mem.pop(('L', 0, 'ret'))
            r = r[1] if isinstance(r[1], bool) else decide(st, r[1])
            self.judge('C06', 'it reports itself checked only after it was', r == bool(st.gh.get('checked')), self.was.span,
                       'reports itself %schecked' % ('' if r else 'un'), [self.was.path])
            return [self.at(st, {'data': 'loop', 'ended': 'ended'}[st.gh['mode'][1]])]
        if stage == 'polled':
            r = st.mem.pop(('L', 0, 'ret'))
            if pending(st, r):
                return [self.at(st, 'loop')]
            v = some(st, r)
            if v is None:
                st.gh['mode'] = ('K', 'ended')
                return [self.at(st, 'ended')]
            t = tape(st, v)
            if t == ():
                return [self.at(st, 'loop')]
            op = st.gh['op'][1]
            if t is not None:
                self.known(st, t[0])
                self.known(st, t[1])
            ok = t is not None and st.ent(lsub(t[0], op))
            self.judge('C21', 'what is yielded are successive pieces of the input', ok, b.span, 'yields %s after position %s' % (show(v), lin.show(op)), site)
            if not ok:
                return []
            case = self.case(st)
            inside = self.inside(st, t[0], t[1])
            if case == 'kept':
                self.judge('C21', 'no byte of the message is lost', not self.inside(st, op, t[0]), b.span, 'a byte that belongs to the message is left out', site)
            elif case == 'dropped':
                self.judge('C21', 'a leading dot is removed', not inside, b.span, 'the leading dot of a line is not removed', site)
            else:
                past = st.ent(addc(lsub(t[0], w), -1)) 
                self.judge('C21', 'nothing from the end marker on is yielded', not inside and not past, b.span, 'the end marker, or bytes after it, are yielded as data', site)
                if past:
                    return []
            st.gh['op'] = ('L', t[1])
            return [self.at(st, 'loop')]
        if stage == 'ended':
            s2, s3 = st.copy(), st.copy()
            out = [self.go(ip, st, self.poll, [TUP(ds), cx], 'repolled'), self.go(ip, s3, self.was, [ds], 'asked')]
            if not s2.gh.get('checked'):
                out.append(self.go(ip, s2, self.complete, [ds], 'completed'))
            elif s2.gh['checked'] == TRUE:
                s2.gh['mode'] = ('K', 'rest')
                out.append(self.go(ip, s2, self.ppoll, [TUP(pre), cx], 'rest'))
            return out
        if stage == 'repolled':
            r = st.mem.pop(('L', 0, 'ret'))
            self.judge('C22', 'once ended, it yields nothing more', not pending(st, r) and some(st, r) is None, b.span, 'yields more after the end', site)
            return [self.at(st, 'ended')]
        if stage == 'completed':
            r = st.mem.pop(('L', 0, 'ret'))
            c = self.complete
            ok = st.variant_of(r) == 0
            fin = bool(st.gh.get('fin'))
            self.judge('C06', 'a cut off message is not reported as complete', not (ok and fin), c.span, 'reports success although the input ended before the end marker', [c.path])
            self.judge('C22', 'the stream ends only at an end marker or at the end of input', ok or fin, c.span, 'ends with failure although the input has not ended', [c.path])
            st.gh['checked'] = TRUE if ok else ('K', 'cut')
            if not ok:
                return [self.at(st, 'ended')]
            return [self.at(st, 'ended')]
        if stage == 'rest':
            # where the command stream goes on
            r = st.mem.pop(('L', 0, 'ret'))
            c = self.complete
            site = [c.path]
            e = st.gh['rp'][1]
            if not pending(st, r):
                v = some(st, r)
                if v is not None:
                    t = tape(st, v)
                    if t == ():
                        st.gh['mode'] = ('K', 'ended')
                        return []
                    self.judge('C22', 'the command stream goes on with input not yet yielded', t is not None, c.span, 'goes on with %s' % show(v), site)
                    if t is None:
                        return []
                    e = t[0]
            else:
                return []
            self.known(st, e)
            op = st.gh['op'][1]
            m = addc(e, -3)
            ok = st.ent(lsub(m, op))
            self.judge('C22', 'the command stream goes on right after the end marker', ok, c.span, 'the rest starts at %s, the data went up to %s' % (lin.show(e), lin.show(op)), site)
            if st.gh.get('early'):
                self.judge('C06', 'success is reported only after the end marker', ok and not (self.case(st) != 'marker' and self.equal(st, w, m)), c.span,
                           'reports success although no end marker was received', site)
                return []
            if not ok:
                return []
            case = self.case(st)
            if case == 'marker':
                self.judge('C22', 'the first end marker ends the data', not self.inside(st, const(0), m), c.span, 'an end marker is passed over', site)
            else:
                self.judge('C22', 'only a line of a single dot ends the data', not self.equal(st, w, m), c.span,
                           'ends where there is no end marker, or gives back too much or too little', site)
            if case == 'kept':
                self.judge('C21', 'no byte of the message is lost', not self.inside(st, op, m), c.span, 'a byte before the end marker is left out', site)
            return []

    def inside(self, st, a, b):
        """can w lie in [a, b)?"""
        s = st.copy()
        return s.assume(('ge', lsub(self.w, a))) and s.assume(('ge', addc(lsub(b, self.w), -1)))

    def equal(self, st, a, b):
        s = st.copy()
        return s.assume(('eq', lsub(a, b)))

def decode_cases():
    """(name, kind, w or None for symbolic, facts): every relation of a byte to the transfer format"""
    starts = [('first', const(0), []), ('line', None, [(-2, CR), (-1, LF)])]
    kinds = [('kept', 'other', [(0, FULLM & ~DOT)]), ('marker', 'marker', [(0, DOT), (1, CR), (2, LF)]),
             ('dropped', 'dot', [(0, DOT), (1, FULLM & ~CR)]), ('dropped', 'dotcr', [(0, DOT), (1, CR), (2, FULLM & ~LF)])]
    for n, w, f in starts:
        for k, s, g in kinds:
            yield n + '-' + s, k, w, f + g
    yield 'second', 'kept', const(1), []
    yield 'nolf', 'kept', None, [(-1, FULLM & ~LF)]
    yield 'nocr', 'kept', None, [(-1, LF), (-2, FULLM & ~CR)]

def decode_state(ip, env, name, kind, w, facts):
    env.w = w if w is not None else lin.sym(('o', ('w', 0)))
    st = ip.new_state()
    st.gh['rp'] = st.gh['op'] = ('L', const(0))
    st.gh['mode'] = ('K', 'data')
    st.gh['case'] = ('K', (name, kind))
    if w is None:
        st.cons = frozenset([addc(env.w, -2)])
    for k, m in facts:
        st.bm[T, addc(env.w, k)] = m
    env.init(ip, st, 'start')
    return st

def decode(ctx, kind=DecodeEnv):
    env = kind(ctx.prog)
    ip = ctx.make(env)
    env.setup(ip)
    r = lambda s: ctx.root(s, 'smtp_message')
    env.pnew, env.prepend, env.ppoll = r('Prependable::<S>::new'), r('Prependable::<S>::prepend'), r('Prependable<S> as futures::Stream>::poll_next')
    env.new, env.poll = r("DataStream::<'a, S>::new"), r("DataStream<'a, S> as futures::Stream>::poll_next")
    env.complete, env.was = r("DataStream::<'a, S>::complete"), r("DataStream::<'a, S>::was_completed")
    if not all((env.pnew, env.prepend, env.ppoll, env.new, env.poll, env.complete, env.was)):
        return

    sts = list(decode_cases())
    ctx.parallel(sts, lambda c: ctx.explore(ip, [decode_state(ip, env, *c)]))
    ctx.note('client', 'any sequence of poll_next, complete (once ended) and was_completed, then the command stream, over any input in any packets; one arbitrary position observed in %d cases' % len(sts))

@reg('C21')
def c21(ctx):
    decode(ctx)

@reg('C22')
def c22(ctx):
    decode(ctx)

# ------------------------------------------------------------------------------------------ C23
def is_sink(x):
    return (x.c.get('trait') or '').endswith('::Sink') and x.ip.prog.body_of(x.c) is None

class EncodeEnv(TapeEnv):
    """a DataSink given the tape T piece by piece, over a sink that may accept, stall or fail at any call;
    one arbitrary position w of the content observed, by cases"""
    near = (-2, 2)
    ghosts = ('q', 'sp')
    def extra(self, st, starts):
        q = st.gh['q'][1]
        return tuple(k for k in (0, -1) if any(st.ent_eq(addc(lsub(s, q), -k)) for s in starts))

    def call(self, x):
        if is_sink(x):
            st = x.st
            if x.m in ('poll_ready', 'poll_flush', 'poll_close'):
                return [(st.copy(), PENDING), (st.copy(), READY(OK(UNIT))), (st, READY(ERR(('Y', 'sink error'))))]
            if x.m == 'start_send':
                a, b = st.copy(), st.copy()
                out = [(b, ERR(('Y', 'sink error')))]
                if self.emit(x, a, x.a[1]):
                    out.append((a, OK(UNIT)))
                return out
        return None

    def emit(self, x, st, item):
        ctx, ip = self.ctx, x.ip
        v = seqv(st, item)
        site = ip.where(st)
        where = str(x.span)
        if v[0] != 'S':
            ctx.ob('what is written are bytes of the content, dots and the end', False, where, 'writes %s' % show(v), site)
            return False
        segs = st.mergesegs(v[1])
        if st.gh['mode'][1] == 'end':
            for s in segs:
                if s[0] != 'lit':
                    ctx.ob('the content is followed only by the end of data', False, where, 'writes %s at the end' % show(v), site)
                    return False
                st.gh['endout'] = ('K', st.gh['endout'][1] + s[1])
            return True
        for s in segs:
            q = st.gh['q'][1]
            cnt = st.gh['cnt'][1]
            dot = self.dot
            if s[0] == 'sub' and s[1] == T:
                a, b = s[2], s[3]
                for p in (a, b, q):
                    self.known(st, p)
                if st.ent_eq(lsub(a, q)):
                    pass
                elif st.ent_eq(lsub(a, addc(q, -1))):
                    if self.rel(st, q) == 1:
                        ok = dot and cnt == 1
                        ctx.ob('only a dot that starts a line is doubled', ok, where, 'a byte that is not a leading dot is written twice', site)
                        if not ok:
                            return False
                        cnt = 2
                else:
                    ctx.ob('the content is written in order, without gap', False, where, 'writes %s, expected from %s' % (show(v), lin.show(q)), site)
                    return False
                if self.inside(st, q, b):
                    cnt += 1
                if dot and self.rel(st, q) <= 1 and self.rel(st, b) >= 2:
                    # the byte after the leading dot is written
                    ctx.ob('every dot that starts a line is doubled', cnt == 2, where, 'a leading dot is written only once', site)
                    if cnt != 2:
                        return False
                st.gh['q'] = ('L', b)
            elif s[0] == 'lit' and s[1] == b'.':
                self.known(st, q)
                r = self.rel(st, q)
                prev = st.bmask(T, addc(q, -1)) == DOT if st.ent(addc(q, -1)) else False
                at = 1 if prev else 0
                if r == at:
                    ok = dot and cnt == at
                    ctx.ob('only a dot that starts a line is doubled', ok, where, 'an extra dot is written where none belongs', site)
                    if not ok:
                        return False
                    cnt += 1
                elif not prev and r not in (0, 1):
                    pass
            else:
                ctx.ob('what is written are bytes of the content, dots and the end', False, where, 'writes %s' % show(v), site)
                return False
            st.gh['cnt'] = ('K', cnt)
        return True

    def client(self, ip, st, stage):
        ctx = self.ctx
        ds = ('R', ('L', 0, 'ds'), ())
        if stage == 'start':
            return [self.go(ip, st, self.new, [('O', self.new.locals[1], ('sink', 0))], 'made')]
        if stage == 'made':
            st.mem[('L', 0, 'ds')] = st.mem.pop(('L', 0, 'ret'))
            return [self.at(st, 'loop')]
        if stage == 'loop':
            s2 = st.copy()
            sp = st.gh['sp'][1]
            n = st.fresh('pkt', 0)
            st.gh['sp'] = ('L', add(sp, n))
            self.go(ip, st, self.send, [ds, ('S', (('sub', T, sp, add(sp, n)),))], 'sendf')
            s2.gh['mode'] = ('K', 'end')
            self.go(ip, s2, self.end, [s2.mem.pop(('L', 0, 'ds'))], 'endf')
            return [st, s2]
        if stage in ('sendf', 'endf'):
            st.mem[('L', 0, 'fut')] = st.mem.pop(('L', 0, 'ret'))
            return self.poll_fn(ip, st, ('L', 0, 'fut'), {'sendf': 'sent', 'endf': 'ended'}[stage])
        r = st.mem.pop(('L', 0, 'ret'))
        st.mem.pop(('L', 0, 'fut'), None)
        if st.variant_of(st.proj(st.proj(r, ('d', 0)), ('f', 0, None))) != 0:
            return []
        if stage == 'sent':
            return [self.at(st, 'loop')]
        b = self.end
        q, sp, cnt = st.gh['q'][1], st.gh['sp'][1], st.gh['cnt'][1]
        self.known(st, sp)
        self.known(st, q)
        ctx.ob('all of the content is written', st.ent_eq(lsub(q, sp)), self.send.span, 'content from %s on is not written' % lin.show(q), [self.send.path])
        e = self.rel(st, sp)
        if e > 0:
            ctx.ob('every byte is written once, a leading dot twice', cnt == (2 if self.dot else 1), self.send.span, 'byte written %d times' % cnt, [self.send.path])
        out = st.gh['endout'][1]
        ctx.ob('the end is the marker, after a line break if needed', out in (b'.\r\n', b'\r\n.\r\n'), b.span, 'the data ends with %r' % out, [b.path])
        if e == 0:
            ctx.ob('the last line is closed exactly if it was open', out == (b'.\r\n' if self.ls else b'\r\n.\r\n'), b.span,
                   'content that ends %s a line break is ended with %r' % ('with' if self.ls else 'without', out), [b.path])
        return []

    inside = DecodeEnv.inside

def encode_cases():
    starts = [('first', const(0), []), ('line', None, [(-2, CR), (-1, LF)])]
    for n, w, f in starts:
        yield n + '-dot', True, True, w, f + [(0, DOT)]
        yield n + '-other', True, False, w, f + [(0, FULLM & ~DOT)]
    yield 'second', False, False, const(1), []
    yield 'nolf', False, False, None, [(-1, FULLM & ~LF)]
    yield 'nocr', False, False, None, [(-1, LF), (-2, FULLM & ~CR)]

@reg('C23')
def c23(ctx):
    env = EncodeEnv(ctx.prog)
    ip = ctx.make(env)
    env.setup(ip)
    r = lambda s: ctx.root(s, 'smtp_message')
    env.new, env.send, env.end = r('DataSink::<S>::new'), r('DataSink::<S>::send'), r('DataSink::<S>::end')
    if not all((env.new, env.send, env.end)):
        return
    def run(c):
        name, env.ls, env.dot, w, facts = c
        env.w = w if w is not None else lin.sym(('o', ('w', 0)))
        st = ip.new_state()
        for g in ('q', 'sp'):
            st.gh[g] = ('L', const(0))
        st.gh['mode'], st.gh['cnt'], st.gh['endout'] = ('K', 'data'), ('K', 0), ('K', b'')
        if w is None:
            st.cons = frozenset([addc(env.w, -2)])
        for k, m in facts:
            st.bm[T, addc(env.w, k)] = m
        env.init(ip, st, 'start')
        ctx.explore(ip, [st])
    cs = list(encode_cases())
    ctx.parallel(cs, run)
    ctx.note('client', 'any content in any pieces, then the end, over a sink that accepts, stalls or fails at any call; one arbitrary position observed in %d cases' % len(cs))

# ------------------------------------------------------------------------------------------ C33
class SendEnv(EncodeEnv):
    """the same client; what is judged is the conversation with the output, not the content"""
    def call(self, x):
        if not is_sink(x):
            return None
        st, m, ctx = x.st, x.m, self.ctx
        where, site = str(x.span), x.ip.where(st)
        if m not in ('poll_ready', 'poll_flush', 'poll_close', 'start_send'):
            return None
        ok = not st.gh.get('failed')
        ctx.ob('nothing is written after a failed write', ok, where, '%s on the output after it failed' % m, site)
        if not ok:
            return []
        bad, good = st.copy(), st.copy()
        bad.gh['failed'] = TRUE
        out = [(bad, ERR(('O', None, ('SINK ERROR', 0))) if m == 'start_send' else READY(ERR(('O', None, ('SINK ERROR', 0)))))]
        if m == 'start_send':
            ok = bool(st.gh.get('ready'))
            ctx.ob('the output is given data only when it is ready', ok, where, 'data is written although the output did not report to be ready', site)
            if not ok:
                return []
            good.gh.pop('ready')
            good.gh['unflushed'] = TRUE
            return out + [(good, OK(UNIT))]
        if m == 'poll_ready':
            good.gh['ready'] = TRUE
        else:
            good.gh.pop('unflushed', None)
        return out + [(good, READY(OK(UNIT))), (st, PENDING)]

    def client(self, ip, st, stage):
        ctx = self.ctx
        if stage not in ('sent', 'ended'):
            return EncodeEnv.client(self, ip, st, stage)
        r = st.mem.pop(('L', 0, 'ret'))
        st.mem.pop(('L', 0, 'fut'), None)
        r = st.proj(st.proj(r, ('d', 0)), ('f', 0, None))
        ok, failed = st.variant_of(r) == 0, bool(st.gh.get('failed'))
        b = self.send if stage == 'sent' else self.end
        ctx.ob('a failed write is reported', ok != failed, b.span, 'reports %s although the output %s' % ('success' if ok else 'an error', 'failed' if failed else 'did not fail'), [b.path])
        if ok == failed:
            return []
        if failed:
            e = st.proj(st.proj(r, ('d', 1)), ('f', 0, None))
            ctx.ob('the error reported is the one of the output', e[0] == 'O' and e[2] == ('SINK ERROR', 0), b.span, 'reports %s' % show(e)[:60], [b.path])
            return []
        if stage == 'sent':
            st.gh.pop('ready', None)
            return [self.at(st, 'loop')]
        ctx.ob('the end is reported only once everything is flushed', not st.gh.get('unflushed'), b.span, 'success although what was written may still sit in a buffer', [b.path])
        return []

@reg('C33')
def c33(ctx):
    sending(ctx)

def sending(ctx, kind=SendEnv):
    env = kind(ctx.prog)
    ip = ctx.make(env)
    env.setup(ip)
    r = lambda s: ctx.root(s, 'smtp_message')
    env.new, env.send, env.end = r('DataSink::<S>::new'), r('DataSink::<S>::send'), r('DataSink::<S>::end')
    if not all((env.new, env.send, env.end)):
        return
    env.ls, env.dot, env.w = False, False, const(1)
    st = ip.new_state()
    for g in ('q', 'sp'):
        st.gh[g] = ('L', const(0))
    st.gh['mode'], st.gh['cnt'], st.gh['endout'] = ('K', 'data'), ('K', 0), ('K', b'')
    env.init(ip, st, 'start')
    ctx.explore(ip, [st])
    ctx.note('client', 'any content in any pieces, then the end, over an output that accepts, stalls or fails at any call')
