"""Session checks: C11 (replies become lines), C01-C08 (commands, transactions, replies, failures), C26"""
from checks.registry import reg
from checks.base import *
from checks.streams import ClientEnv, is_poll, is_sink, pending, some, T, TRUE, FALSE
from checks.reply import PRINT
from checks import streams
import lin
from lin import const, add, addc, sub as lsub, scale, is_const
from interp import *
from models import *

TEXT = ('TXT', 0)

def line_parts(st, v):
    """code, flag (variant name), text of a ReplyLine value, found by type"""
    prog = st.ip.prog
    v = collapse(v)
    if v[0] != 'A':
        raise Unsupported('reply line %s' % show(v)[:80])
    t = prog.types[v[1]] if v[1] is not None else None
    out = {}
    for i, f in enumerate(t['v'][0]['f']):
        n = prog.types[f['t']].get('p', '').rsplit('::', 1)[-1]
        out[n] = (st.proj(v, ('f', i, f['t'])), f['t'])
    flag, ft = out['IsLastLine']
    k = st.variant_of(flag)
    last = prog.types[ft]['v'][k]['n'] if k is not None else None
    txt = out['SmtpString'][0]
    for _ in range(8):
        if txt[0] == 'S':
            break
        txt = st.proj(txt, ('f', 0, None))
    return out['ReplyCode'][0], last, txt

class ReplyEnv(ClientEnv):
    """send_reply of one code and one text over an output for lines that accepts, stalls or fails at any call"""
    def call(self, x):
        if is_sink(x):
            st = x.st
            if st.gh.get('failed'):
                self.ctx.ob('nothing is written after a failed write', False, str(x.span), '%s after the output failed' % x.m, x.ip.where(st))
                return []
            bad = st.copy()
            bad.gh['failed'] = TRUE
            res = [(bad, READY(ERR(('Y', 'sink error'))) if x.m != 'start_send' else ERR(('Y', 'sink error')))]
            if x.m in ('poll_ready', 'poll_flush', 'poll_close'):
                if x.m == 'poll_flush':
                    st.gh.pop('unflushed', None)
                return res + [(st.copy(), PENDING), (st, READY(OK(UNIT)))]
            if x.m == 'start_send':
                if self.line(x, st, x.a[1]):
                    res.append((st, OK(UNIT)))
                return res
        return None

    def line(self, x, st, v):
        ctx = self.ctx
        where, site = str(x.span), x.ip.where(st)
        code, last, txt = line_parts(st, v)
        q = st.gh['q'][1]
        if not ctx.ob('nothing follows the last line of a reply', not st.gh.get('last'), where, 'a line is sent after the one marked last', site):
            return False
        ctx.ob('every line carries the code of the reply', repr(collapse(code)) == self.code, where, 'a line carries code %s' % show(code)[:60], site)
        if not ctx.ob('a line is marked as last or not', last in ('Yes', 'No'), where, 'flag %s' % last, site):
            return False
        segs = st.mergesegs(txt[1])
        n = seglen(segs)
        if not segs or st.ent_eq(n):
            end = q
        else:
            ok = len(segs) == 1 and segs[0][0] == 'sub' and segs[0][1] == TEXT and st.ent_eq(lsub(segs[0][2], q))
            if not ctx.ob('the lines carry the text in order, without gap or repetition', ok, where, 'line text %s, expected from %s' % (show(txt), lin.show(q)), site):
                return False
            end = segs[0][3]
        self.limit(st, n, 506, where, 'a line text of more than 506 bytes', site)
        if last == 'Yes':
            ctx.ob('the line marked last carries the end of the text', st.ent_eq(lsub(end, self.n)), where, 'marked last although %s of %s bytes were sent' % (lin.show(end), lin.show(self.n)), site)
            st.gh['last'] = TRUE
        st.gh['q'] = ('L', end)
        st.gh['unflushed'] = TRUE
        return True

    def limit(self, st, n, k, where, msg, site):
        """a length that summarises many rounds and has lost its bound is no evidence of an excess: the
        first rounds are seen exactly"""
        ok = st.ent(addc(scale(n, -1), k))
        if (not ok and not st.ent_eq(st.gh['q'][1]) and not st.ent(addc(n, -k - 1)) and
                (any(isinstance(s, tuple) and s[0] == 'n' for s, _ in n[1]) or lin.lower(st.cons, scale(n, -1)) is None)):
            self.ctx.incomplete.setdefault('the length of a line after many rounds is not known', list(map(str, site)))
            return
        self.ctx.ob('no line exceeds the limit', ok, where, msg, site)

    def client(self, ip, st, stage):
        ctx = self.ctx
        b = self.body
        if stage == 'start':
            args = []
            for i in range(b.argc):
                t = ctx.prog.types[b.locals[i + 1]]
                if t['k'] == 'tuple':
                    args.append(self.reply(st, b.locals[i + 1]))
                else:
                    args.append(TUP(('R', ('L', 0, 'sink'), ())))
            st.mem[('L', 0, 'sink')] = ('O', None, ('sink', 0))
            return [self.go(ip, st, b, args, 'future')]
        if stage == 'future':
            st.mem[('L', 0, 'fut')] = st.mem.pop(('L', 0, 'ret'))
            return self.poll_fn(ip, st, ('L', 0, 'fut'), 'done')
        r = st.proj(st.proj(st.mem[('L', 0, 'ret')], ('d', 0)), ('f', 0, None))
        ok = st.variant_of(r) == 0
        failed = bool(st.gh.get('failed'))
        ctx.ob('a failed write is reported', ok != failed, b.span, 'reports %s although the output %s' % ('success' if ok else 'failure', 'failed' if failed else 'did not fail'), [b.path])
        if ok:
            ctx.ob('a reply has exactly one last line', bool(st.gh.get('last')), b.span, 'no line was marked last', [b.path])
            ctx.ob('a reply is flushed', not st.gh.get('unflushed'), b.span, 'the reply may stay in a buffer', [b.path])
        return []

    def reply(self, st, ty):
        t = self.ctx.prog.types[ty]
        code = st.opaque(t['f'][0], ('code', 0))
        txt = st.opaque(t['f'][1], TEXT)
        v = txt
        def rebase(v):
            if v[0] == 'S':
                self.n = lin.sym(('o', ('.', TEXT, 'len')))
                st.cons = st.cons | frozenset([self.n])
                return ('S', (('sub', TEXT, const(0), self.n),))
            if v[0] == 'A':
                return v[:3] + (tuple(rebase(f) for f in v[3]),)
            if v[0] == 'O':
                u = self.ctx.prog.types[v[1]]
                return ('A', v[1], 0, tuple(rebase(st.proj(v, ('f', i, f['t']))) for i, f in enumerate(u['v'][0]['f'])))
            raise Unsupported('reply text %s' % show(v)[:60])
        txt = rebase(txt)
        self.code = repr(collapse(code))
        return TUP(code, txt)

    def normalise(self, ip, st):
        """tell pieces of the text that reach its end from those that do not"""
        cls = set()
        def rec(v):
            if not isinstance(v, tuple) or not v:
                return
            if v[0] == 'S':
                for s in v[1]:
                    if s[0] == 'sub' and s[1] == TEXT:
                        cls.add((st.ent_eq(lsub(s[3], self.n)), is_const(s[2]) and s[2][0] == 0, st.ent_eq(lsub(s[2], st.gh['q'][1])), st.ent_eq(lsub(s[3], st.gh['q'][1]))))
            elif v[0] in ('A', 'N'):
                for x in v[3 if v[0] == 'A' else 2]:
                    rec(x)
            elif v[0] == 'V':
                rec(v[1])
        for c in st.mem:
            rec(st.mem[c])
        st.gh['cls'] = ('K', tuple(sorted(cls)))

    def byte(self, st, base, pos):
        if base == TEXT:
            st.bm[base, pos] = st.bmask(base, pos) & PRINT

def replies(ctx, kind=ReplyEnv):
    env = kind(ctx.prog)
    ip = ctx.make(env)
    ip.on_byte = env.byte
    env.body = ctx.root('sendreply::send_reply', 'smtp_server')
    if env.body is None:
        return
    env.n = lin.sym(('o', ('.', TEXT, 'len')))
    for empty in (True, False):
        st = ip.new_state()
        st.gh['q'] = ('L', const(0))
        env.init(ip, st, 'start')
        n = env.n
        st.cons = st.cons | frozenset([n])
        if not st.assume(('eq', n) if empty else ('ge', addc(n, -1))):
            raise Unsupported('text length')
        ctx.explore(ip, [st])

class WireEnv(ReplyEnv):
    """the greeting of a session, down to the bytes given to the output"""
    def call(self, x):
        st = x.st
        if is_poll(x):
            st.gh['read'] = TRUE
            self.greeted(x.ip, st, str(x.span), x.ip.where(st))
            return []
        tr = x.c.get('trait') or ''
        if tr.endswith('config::Config'):
            t = self.prog.types[x.dty]
            if t['k'] == 'tuple' and len(t['f']) == 2 and 'code' not in self.__dict__.get('done', ()):
                return one(st, self.reply(st, x.dty))
        if tr == 'std::io::Write' and x.m in ('write_all', 'write_fmt') and (x.c.get('dyn') or x.c.get('ik') == 'virtual' or x.c.get('inst') is None):
            return self.fill(x)
        return ReplyEnv.call(self, x)

    def fill(self, x):
        """a writer over a buffer: takes what fits, fails otherwise"""
        st = x.st
        ref = x.a[0]
        while True:
            v = st.deref(ref)
            if v[0] in ('R', 'V'):
                ref = v
            elif v[0] == 'A' and len(v[3]) == 1 and ref[0] == 'R':
                ref = ('R', ref[1], ref[2] + (('f', 0, None),))
            else:
                break
        if v[0] != 'N' or v[1] != 'bufw' or ref[0] != 'R':
            raise Unsupported('output %s' % show(v)[:60])
        data = fmt_render(st, x.a[1]) if x.m == 'write_fmt' else seqv(st, x.a[1])
        if data[0] != 'S':
            data = ('S', data)
        cap = v[2][1]
        segs = st.concat(seqv(st, v[2][0])[1], data[1])
        bad = st.copy()
        room = lsub(cap[1], seglen(segs))
        out = []
        if st.assume(('ge', room)):
            st.store(ref[1], ref[2], ('N', 'bufw', (('S', segs), cap)))
            out.append((st, OK(UNIT)))
        if bad.assume(('ge', addc(scale(room, -1), -1))):
            out.append((bad, ERR(('O', None, ('no room', 0)))))
        return out

    def reply(self, st, ty):
        v = ReplyEnv.reply(self, st, ty)
        c = v[3][0]
        while c[0] != 'i':
            c = st.proj(collapse(c), ('f', 0, None))
        self.num = c[1]
        st.assume(('ge', addc(scale(c[1], -1), 999)))
        if not st.assume(('eq', self.n) if self.empty else ('ge', addc(self.n, -1))):
            raise Unsupported('text length')
        return v

    def line(self, x, st, v):
        ctx = self.ctx
        where, site = str(x.span), x.ip.where(st)
        segs = st.mergesegs(seqv(st, v)[1])
        n = seglen(segs)
        if not ctx.ob('what is sent are reply lines', st.ent(addc(n, -6)), where, 'sends %s' % show(v)[:80], site):
            return False
        if not ctx.ob('nothing follows the last line of a reply', not st.gh.get('last'), where, 'a line is sent after the one marked last', site):
            return False
        ds = [addc(st.byte_at(segs, const(i))[1], -48) for i in range(3)]
        ok = all(st.ent(d) and st.ent(addc(scale(d, -1), 9)) for d in ds) and st.ent_eq(lsub(add(add(scale(ds[0], 100), scale(ds[1], 10)), ds[2]), self.num))
        ctx.ob('every line carries the code of the reply', ok, where, 'a line starts with other bytes than the digits of the code', site)
        sep = st.byte_at(segs, const(3))[1]
        last = True if st.ent_eq(addc(sep, -32)) else False if st.ent_eq(addc(sep, -45)) else None
        if not ctx.ob('a line is marked as last or not', last is not None, where, 'separator %s' % lin.show(sep), site):
            return False
        end = st.cut(segs, addc(n, -2), n)
        ctx.ob('every line ends with CRLF', end == (('lit', b'\r\n'),), where, 'line end %s' % show(('S', end))[:60], site)
        mid = st.mergesegs(st.cut(segs, const(4), addc(n, -2)))
        q = st.gh['q'][1]
        e = q
        if mid and not st.ent_eq(seglen(mid)):
            ok = len(mid) == 1 and mid[0][0] == 'sub' and mid[0][1] == TEXT and st.ent_eq(lsub(mid[0][2], q))
            if not ctx.ob('the lines carry the text in order, without gap or repetition', ok, where, 'line text %s, expected from %s' % (show(('S', mid))[:60], lin.show(q)), site):
                return False
            e = mid[0][3]
        self.limit(st, n, 512, where, 'a line of more than 512 bytes', site)
        if last:
            ctx.ob('the line marked last carries the end of the text', st.ent_eq(lsub(e, self.n)), where, 'marked last although %s of %s bytes were sent' % (lin.show(e), lin.show(self.n)), site)
            st.gh['last'] = TRUE
        st.gh['q'] = ('L', e)
        st.gh['unflushed'] = TRUE
        return True

    def greeted(self, ip, st, where, site):
        self.ctx.ob('a reply has exactly one last line', bool(st.gh.get('last')), where, 'the session goes on before the greeting is complete', site)
        self.ctx.ob('a reply is flushed', not st.gh.get('unflushed'), where, 'the session goes on while the greeting may stay in a buffer', site)

    client = None

class Greeting(WireEnv):
    def client(self, ip, st, stage):
        if stage == 'start':
            return SessionEnv.client(self, ip, st, stage)
        if stage == 'future':
            return SessionEnv.client(self, ip, st, stage)
        r = st.proj(st.proj(st.mem[('L', 0, 'ret')], ('d', 0)), ('f', 0, None))
        ok = st.variant_of(r) == 0
        b = self.body
        self.ctx.ob('a failed write is reported', not ok and bool(st.gh.get('failed')), b.span, 'the session ends %s although the output %s' % ('normally' if ok else 'with an error', 'failed' if st.gh.get('failed') else 'did not fail'), [b.path])
        return []

def wire(ctx):
    for empty in (True, False):
        env = Greeting(ctx.prog)
        ip = ctx.make(env)
        ip.on_byte = env.byte
        env.empty = empty
        env.n = lin.sym(('o', ('.', TEXT, 'len')))
        env.body = ctx.root('interact::interact', 'smtp_server')
        if env.body is None:
            return
        st = ip.new_state()
        st.gh['q'] = ('L', const(0))
        env.init(ip, st, 'start')
        ctx.explore(ip, [st])

@reg('C11')
def c11(ctx):
    replies(ctx)
    wire(ctx)
    ctx.note('client', 'send_reply of any code and printable text over an output for lines, and the greeting of a session over an output for bytes; outputs accept, stall or fail at any call')

# ------------------------------------------------------------------------------------------ the session as a whole
def retag(x, names):
    """every symbol named by one of names is from now on an earlier one"""
    memo = {}
    def rec(v):
        if not isinstance(v, tuple) or not v:
            return v
        k = id(v)
        r = memo.get(k)
        if r is None:
            if len(v) == 2 and v[0] in names and v[1] == 0:
                r = (v[0], 'old')
            else:
                r = tuple(rec(e) for e in v)
                if all(a is b for a, b in zip(r, v)):
                    r = v
            memo[k] = r
        return r
    return rec(x)

def root_sym(st, v):
    """(symbol, path) of which v is exactly a part; None if it is not one unknown as a whole"""
    v = collapse(v)
    for _ in range(12):
        if v[0] == 'A' and len(v[3]) == 1:
            v = collapse(v[3][0])
        else:
            break
    if v[0] == 'S':
        s = st.mergesegs(v[1])
        if len(s) != 1 or s[0][0] != 'sub' or not is_const(s[0][2]) or s[0][2][0] != 0:
            return None
        b = s[0][1]
        if not st.ent_eq(lsub(s[0][3], lin.sym(('o', ('.', b, 'len'))))):
            return None
        y = b
    elif v[0] == 'O':
        y = v[2]
    elif v[0] == 'i' and len(v[1][1]) == 1 and v[1][0] == 0:
        y = v[1][1][0][0]
        y = y[1] if isinstance(y, tuple) and y[0] == 'o' else y
    else:
        return None
    path = []
    while isinstance(y, tuple) and y and y[0] == '.':
        path.append(y[2:])
        y = y[1]
    return y, tuple(reversed(path))

DECIDING = ('filter_from', 'filter_to', 'filter_data', 'handle_mail')
PER_CMD = ('REFUSAL', 'CMD', 'ADDR')
PER_TX = ('FROM', 'RC')

class SessionEnv(ClientEnv):
    """a whole session: any input in any pieces, any application, an output that may fail at any reply.

    Replies (send_reply, decided by C11), command parsing (decided by C13-C18) and the decoder of mail data (decided by
    C06, C21, C22) are taken by their contracts; everything else is the code of the session itself."""

    def judge(self, props, rule, ok, where, msg, site):
        if self.ctx.pid in props:
            self.ctx.ob(rule, ok, where, msg, site)
        return ok

    # -- the input
    def source(self, x):
        st = x.st
        site, where = x.ip.where(st), str(x.span)
        self.judge(('C08',), 'the input is not polled after its end', not st.gh.get('fin'), where, 'the input is polled again after its end', site)
        self.judge(('C07',), 'nothing is read after a failed write', not st.gh.get('failed'), where, 'input is read after a reply could not be written', site)
        self.judge(('C01',), 'nothing is read before the greeting', st.gh['phase'][1] != 'greet', where, 'input is read before the greeting was sent', site)
        ok = st.gh['phase'][1] in ('idle', 'mail')
        self.judge(('C01',), 'a line is answered before the next is looked at', ok or st.gh['phase'][1] == 'greet', where, 'more input is read before the last line was answered', site)
        if not ok or st.gh.get('fin') or st.gh.get('failed'):
            return []
        b, c = st.copy(), st.copy()
        rp = st.gh['rp'][1]
        n = c.fresh('pkt', 0)
        c.gh['rp'] = ('L', add(rp, n))
        b.gh['fin'] = TRUE
        return [(b, READY(NONE)), (st, PENDING), (c, READY(SOME(('S', (('sub', T, rp, add(rp, n)),)))))]

    # -- calls taken by contract
    def call(self, x):
        if is_poll(x):
            return self.source(x)
        c, st, prog = x.c, x.st, x.ip.prog
        b = c.get('rdp')
        if b is not None:
            if b == self.send.dp:
                a = [v for v in x.a]
                return one(st, ('N', 'later', (('K', 'reply'),) + tuple(a)))
            if b == self.parse.dp:
                return self.parsed(x)
            if b == self.dnew.dp:
                return one(st, ('N', 'later', (('K', 'stream'), x.a[0])))
            if b == self.was.dp:
                return one(st, ('b', bool(st.gh.get('checked') or st.gh.get('self'))))
            if b == self.complete.dp:
                # the contract of C06 and C22; what the application did not check, the session must not check for it
                if st.gh['phase'][1] != 'final':
                    raise Unsupported('the session completes the data itself')
                bad = st.copy()
                st.gh['self'] = bad.gh['self'] = TRUE
                return [(st, OK(UNIT)), (bad, ERR(UNIT))]
        tr = c.get('trait') or ''
        if tr.endswith('config::Config'):
            return self.hook(x)
        if x.m == 'poll' and tr.endswith('::Future'):
            try:
                cell, path = target_of(x.ip, st, x.a[0])
            except Unsupported:
                return None
            v = st.load(cell, path)
            if v[0] == 'N' and v[1] == 'later':
                st.store(cell, path, ('N', 'corodone', ()))
                return self.later(x, v[2])
        if is_sink(x):
            self.judge(('C01',), 'nothing but replies is sent', False, str(x.span), '%s on the output outside a reply' % x.m, x.ip.where(st))
            return []
        return None

    def later(self, x, v):
        kind = v[0][1]
        if kind == 'reply':
            return self.reply(x, v[1:])
        if kind == 'hook':
            return self.decided(x, v[1][1], v[2:])
        raise Unsupported('waiting for ' + kind)

    # -- a command line
    def parsed(self, x):
        st = x.st
        where, site = str(x.span), x.ip.where(st)
        c = st.gh['c'][1]
        ph = st.gh['phase'][1]
        if not self.judge(('C01',), 'a line is answered before the next is looked at', ph == 'idle', where, 'a line is parsed %s' % self.WHILE.get(ph, ph), site):
            return []
        v = seqv(st, x.a[0])
        s = st.mergesegs(v[1])
        ok = len(s) == 1 and s[0][0] == 'sub' and s[0][1] == T and st.ent_eq(lsub(s[0][2], c))
        if not self.judge(('C01',), 'every line is looked at, in order', ok, where, 'the line parsed is %s, expected from %s' % (show(v), lin.show(c)), site):
            return []
        self.retag(st, PER_CMD)
        st.gh['c'] = ('L', s[0][3])
        st.gh['phase'] = ('K', 'cmd')
        for g in ('dec', 'asked', 'told'):
            st.gh.pop(g, None)
        out = []
        ok, bad = st.copy(), st
        bad.gh['kind'] = ('K', 'error')
        rt = self.prog.types[x.dty]
        out.append((bad, ERR(('O', rt['v'][1]['f'][0]['t'] if rt and len(rt.get('v') or ()) == 2 else None, ('CMD', 0)))))
        cmd = self.cmd
        for i, var in enumerate(cmd['v']):
            s2 = ok.copy()
            s2.gh['kind'] = ('K', var['n'])
            fs = tuple(s2.opaque(f['t'], ('.', ('CMD', 0), i, j)) for j, f in enumerate(var['f']))
            out.append((s2, OK(('A', self.cmdty, i, fs))))
        return out

    def normalise(self, ip, st):
        """forget what is known of the parts of a command or refusal once nothing holds them any more"""
        def roots(v, out):
            if isinstance(v, tuple) and v:
                if len(v) == 2 and v[0] in PER_CMD:
                    out.add(v)
                else:
                    for y in v:
                        roots(y, out)
            return out
        facts = set()
        for t in (st.vf, st.bf, st.bm):
            for k in t:
                roots(k, facts)
        for c in st.cons:
            roots(c, facts)
        if not facts:
            return
        seen = set()
        def held(v):
            if isinstance(v, tuple) and v and id(v) not in seen:
                seen.add(id(v))
                if len(v) == 2 and v[0] in PER_CMD:
                    facts.discard(v)
                else:
                    for y in v:
                        if held(y): return True
            return not facts
        if held((tuple(st.mem.items()), tuple(st.gh.items()), tuple(st.frames), st.ret)):
            return
        def gone(k):
            return bool(roots(k, set()) & facts)
        st.vf = {k: v for k, v in st.vf.items() if not gone(k)}
        st.bf = {k: v for k, v in st.bf.items() if not gone(k)}
        st.bm = {k: v for k, v in st.bm.items() if not gone(k)}
        st.cons = frozenset(c for c in st.cons if not gone(c))

    def retag(self, st, names):
        st.mem = {c: retag(v, names) for c, v in st.mem.items()}
        st.gh = {c: retag(v, names) for c, v in st.gh.items()}
        st.cons = frozenset(retag(c, names) for c in st.cons)
        st.bm = {retag(k, names): m for k, m in st.bm.items()}
        st.vf = {retag(k, names): m for k, m in st.vf.items()}
        st.bf = {retag(k, names): m for k, m in st.bf.items()}

    WHILE = {'greet': 'before the greeting', 'cmd': 'before the last one was answered', 'go': 'between go-ahead and mail data', 'mail': 'while mail data is received',
             'final': 'before the message was answered', 'over': 'after the session was over'}

    # -- the application
    def hook(self, x):
        st, m = x.st, x.m
        where, site = str(x.span), x.ip.where(st)
        if not self.judge(('C07',), 'no hook is called after a failed write', not st.gh.get('failed'), where, '%s is called after a reply could not be written' % m, site):
            return []
        t = self.prog.types[x.dty]
        if t['k'] == 'tuple' or m in ('hostname', 'banner'):
            return one(st, st.opaque(x.dty, ('REPLY:' + m, 0)))
        kind = st.gh.get('kind', ('K', None))[1]
        ph = st.gh['phase'][1]
        opened = bool(st.gh.get('tx'))
        if self.ctx.pid == 'C32' and m in DECIDING:
            self.metadata(st, x.a[-1], where, site, m)
        if self.ctx.pid == 'C32':
            if m == 'new_mail':
                ok = ph == 'cmd' and kind == 'Mail' and not opened
                self.judge(('C32',), 'a new mail is announced only for a sender command in sequence', ok, where, 'new_mail is called in reply to %s%s' % (kind, ', inside a transaction' if opened else ''), site)
                self.judge(('C32',), 'a new mail is announced once', not st.gh.get('told'), where, 'new_mail is called a second time for one command', site)
                if not ok or st.gh.get('told'):
                    return []
                st.gh['told'] = TRUE
            if m == 'filter_from':
                self.judge(('C32',), 'a new mail is announced before its sender is decided on', bool(st.gh.get('told')), where, 'filter_from is asked before new_mail was called', site)
        if m in ('filter_from', 'filter_to', 'filter_data'):
            want = {'filter_from': 'Mail', 'filter_to': 'Rcpt', 'filter_data': 'Data'}[m]
            self.judge(('C02',), 'decisions are asked for only by the command they belong to', ph == 'cmd' and kind == want, where, '%s is asked in reply to %s, %s' % (m, kind, ph), site)
            self.judge(('C02', 'C05'), 'decisions are asked for only in sequence', opened == (m != 'filter_from'), where,
                       '%s is asked although %s' % (m, 'a transaction is open' if opened else 'no transaction is open'), site)
            self.judge(('C02',), 'a decision is asked for once', not st.gh.get('asked'), where, '%s is asked a second time for one command' % m, site)
            if m == 'filter_data':
                self.judge(('C02',), 'data is asked for only after an accepted recipient', bool(st.gh.get('nacc')), where, 'the data decision is asked although no recipient was accepted', site)
            if ph != 'cmd' or opened != (m != 'filter_from') or st.gh.get('asked'):
                return []
            st.gh['asked'] = TRUE
            if m == 'filter_from':
                self.own(st, x.a[1], 'Mail', where, site, 'sender')
            if m == 'filter_to':
                self.own(st, x.a[1], 'Rcpt', where, site, 'recipient')
                self.envelope(st, x.a[2], where, site, m)
            if m == 'filter_data':
                self.envelope(st, x.a[1], where, site, m)
        elif m == 'handle_mail':
            ok = ph == 'go' and kind == 'Data'
            self.judge(('C02',), 'a message is handed over only after the go-ahead', ok, where, 'mail data is handed over %s' % self.WHILE.get(ph, ph), site)
            self.judge(('C02', 'C05'), 'a message is handed over only inside an accepted transaction', opened and bool(st.gh.get('nacc')), where,
                       'mail data is handed over without %s' % ('an accepted recipient' if opened else 'a transaction'), site)
            if not ok or not opened:
                return []
            self.envelope(st, x.a[2], where, site, m)
            # the transaction is over
            self.retag(st, PER_TX)
            for g in ('tx', 'nacc'):
                st.gh.pop(g, None)
            st.gh['r'] = ('L', const(0))
        return one(st, ('N', 'later', (('K', 'hook'), ('K', m)) + tuple(x.a)))

    def metadata(self, st, ref, where, site, m):
        """the connection metadata: the caller's until a hook may have changed it, then what the last hook left"""
        r = root_sym(st, deep(st, ref))
        cur = st.gh.get('conn')
        ok = r is not None and not r[1] and (r[0] == ('CONN', 0) if cur else isinstance(r[0][0], str) and r[0][0].startswith('arg'))
        self.judge(('C32',), 'a hook sees the metadata of its own session', ok, where, '%s is given %s' % (m, show(deep(st, ref))[:80]), site)

    def left(self, st, ref):
        """the hook may have changed the connection metadata"""
        self.retag(st, ('CONN',))
        v = collapse(st.deref(ref))
        if v[0] != 'A' or len(v[3]) != 1 or ref[0] != 'R':
            raise Unsupported('connection metadata %s' % show(v)[:60])
        st.store(ref[1], ref[2], ('A', v[1], 0, (('O', v[3][0][1] if v[3][0][0] == 'O' else None, ('CONN', 0)),)))
        st.gh['conn'] = TRUE

    def own(self, st, ref, kind, where, site, what):
        """the argument is the address of this very command"""
        r = root_sym(st, deep(st, ref))
        i = [v['n'] for v in self.cmd['v']].index(kind)
        ok = r is not None and r[0] == ('CMD', 0) and bool(r[1]) and r[1][0][0] == i
        self.judge(('C03',), 'the application decides on the address of the command itself', ok, where, 'the %s shown to the application is %s' % (what, show(st.deref(ref))[:80]), site)

    def envelope(self, st, v, where, site, m):
        if v[0] in ('R', 'V'):
            v = st.deref(v)
        v = collapse(v)
        if v[0] != 'A':
            return self.judge(('C03',), 'the envelope is the accepted sender and recipients', False, where, 'envelope %s shown to %s' % (show(v)[:80], m), site)
        t = self.prog.types[v[1]]
        for i, f in enumerate(t['v'][0]['f']):
            fv = collapse(deep(st, st.proj(v, ('f', i, f['t']))))
            ft = self.prog.types[f['t']]
            if ft.get('p') == 'std::vec::Vec':
                ok = False
                if fv[0] == 'Q':
                    s = st.mergesegs(fv[1]) if fv[1] else ()
                    r = st.gh['r'][1]
                    ok = st.ent_eq(lsub(seglen(s), r)) and (not s or (len(s) == 1 and s[0][0] == 'sub' and s[0][1] == ('RC', 0) and is_const(s[0][2]) and s[0][2][0] == 0))
                self.judge(('C03',), 'the envelope holds exactly the accepted recipients, in order', ok, where, 'recipients %s shown to %s, expected the %s accepted' % (show(fv)[:80], m, lin.show(st.gh['r'][1])), site)
            else:
                ok = fv[0] == 'O' and fv[2] == ('FROM', 0)
                self.judge(('C03',), 'the envelope holds the accepted sender', ok, where, 'sender %s shown to %s' % (show(fv)[:80], m), site)

    def decided(self, x, m, a):
        st = x.st
        if m == 'new_mail':
            return one(st, READY(UNIT))
        if m not in ('filter_from', 'filter_to', 'filter_data', 'handle_mail'):
            raise Unsupported('hook ' + m)
        if m == 'handle_mail':
            # the application reads the message: what that does to the command stream
            st.gh['phase'] = ('K', 'mail')
            if self.ctx.pid == 'C32':
                self.left(st, a[-1])
            ds = st.deref(a[1])
            if ds[0] != 'N' or ds[1] != 'later' or ds[2][0][1] != 'stream':
                raise Unsupported('data stream %s' % show(ds)[:60])
            st.frames = st.frames + ((('N', 'app', ds[2][1]), 'first', x.dest, x.target, x.cont),)
            return [(st, PUSHED)]
        if self.ctx.pid == 'C32':
            self.left(st, a[-1])
        return [(s, READY(v)) for s, v in self.outcomes(st, m, a)]

    def outcomes(self, st, m, a):
        """the two decisions, with what the application may have changed"""
        res = []
        for acc in (True, False):
            s = st.copy()
            s.gh['dec'] = ('K', 'accept' if acc else 'reject')
            meta = {'filter_to': 2, 'filter_data': 1}.get(m)
            if meta is not None:
                self.retag(s, PER_TX)
                v = collapse(s.deref(a[meta]))
                t = self.prog.types[v[1]]
                fs = []
                for i, f in enumerate(t['v'][0]['f']):
                    if self.prog.types[f['t']].get('p') == 'std::vec::Vec':
                        s.ip.elemty[('RC', 0)] = self.prog.types[f['t']]['a'][0]
                        r = s.gh['r'][1]
                        fs.append(('Q', ()) if r == const(0) else ('Q', (('sub', ('RC', 0), const(0), r),)))
                    else:
                        fs.append(('O', f['t'], ('FROM', 0)))
                s.store(a[meta][1], a[meta][2], ('A', v[1], 0, tuple(fs)))
            if m in ('filter_from', 'filter_to'):
                old = s.deref(a[1])
                ty = self.addrty[m]
                if m == 'filter_from':
                    new = ('O', ty, ('FROM', 0) if acc else ('ADDR', 0))
                    if acc:
                        s.gh['tx'] = TRUE
                        s.gh['r'] = ('L', const(0))
                        s.gh.pop('nacc', None)
                else:
                    r = s.gh['r'][1]
                    new = ('O', ty, ('elem', ('RC', 0), r)) if acc else ('O', ty, ('ADDR', 0))
                    if acc:
                        s.gh['r'] = ('L', addc(r, 1))
                        s.gh['nacc'] = TRUE
                s.store(a[1][1], a[1][2], new)
            i = [v['n'] for v in self.dec['v']].index('Accept' if acc else 'Reject')
            fs = () if acc else (s.opaque(self.dec['v'][i]['f'][0]['t'], ('REFUSAL', 0)),)
            res.append((s, ('A', self.decty, i, fs)))
        return res

    # -- what reading a message does to the command stream
    def native_frame(self, ip, st, fr, d):
        if fr[0][1] == 'client':
            return self.client(ip, st, fr[1])
        if fr[0][1] != 'app':
            return None
        stage = fr[1]
        reader = fr[0][2]
        def at(s, stage):
            f = s.frames[d]
            s.frames = s.frames[:d] + ((f[0], stage) + f[2:],)
            s.entry = True
            return s
        def go(s, body, args, stage):
            s.mem.pop(('L', d, 'ret'), None)
            at(s, stage)
            ip.push(s, body.id, args, (('L', d, 'ret'), ()), stage)
            return s
        def done(s, checked):
            s.gh['checked'] = ('K', checked)
            if not checked:
                s.gh.pop('checked')
            s.gh['phase'] = ('K', 'final')
            out = []
            f = s.frames[d]
            for s2, v in self.outcomes(s, 'handle_mail', ()):
                s2.frames = s2.frames[:d]
                out.extend(ip.finish(s2, READY(v), f[2], f[3], f[4]))
            return out
        poll = lambda s: go(s, self.ppoll, [TUP(reader), ('O', None, ('context', 0))], 'read')
        if stage == 'first':
            return done(st.copy(), False) + [poll(st)]
        if stage == 'read':
            st.mem.pop(('L', d, 'ret'), None)
            rp, c = st.gh['rp'][1], st.gh['c'][1]
            a, b, e = st.copy(), st.copy(), st.copy()
            a.gh['c'] = ('L', rp)
            b.gh['c'] = ('L', rp)
            k = e.fresh('rest', 0)
            x = lsub(rp, k)
            e.cons = e.cons | frozenset([lsub(x, c), addc(k, -1)])
            e.gh['c'] = ('L', x)
            go(e, self.prepend, [reader, ('S', (('sub', T, x, rp),))], 'back')
            out = done(a, True) + done(b, False) + [e]
            if not st.gh.get('fin'):
                out.append(poll(st))
            return out
        if stage == 'back':
            st.mem.pop(('L', d, 'ret'), None)
            return done(st, True)

    # -- a reply
    def reply(self, x, a):
        st = x.st
        where, site = str(x.span), x.ip.where(st)
        if not self.judge(('C07', 'C01'), 'nothing is sent after a failed write', not st.gh.get('failed'), where, 'a reply is sent after an earlier one could not be written', site):
            return []
        tup = [v for v in a if v[0] == 'A' and len(v[3]) == 2]
        if len(tup) != 1:
            raise Unsupported('reply arguments')
        r = [root_sym(st, v) for v in tup[0][3]]
        name = None
        if r[0] and r[1] and r[0][0] == r[1][0] and len(r[0][1]) >= 1 and len(r[1][1]) >= 1 and r[0][1][0] != r[1][1][0]:
            name = r[0][0]
        ph = st.gh['phase'][1]
        kind = st.gh.get('kind', ('K', None))[1]
        dec = st.gh.get('dec', ('K', None))[1]
        opened = bool(st.gh.get('tx'))
        R = lambda n: ('REPLY:' + n, 0)
        REF = ('REFUSAL', 0)
        nxt = 'idle'
        state = False
        if ph == 'greet':
            want = R('welcome_banner')
        elif ph == 'cmd':
            if kind == 'error':
                want = R('command_unrecognized')
            elif kind == 'Mail':
                state = True
                was = opened and not (dec == 'accept')
                if was:
                    want = R('already_in_mail')
                else:
                    want = {'accept': R('mail_okay'), 'reject': REF, None: None}[dec]
            elif kind == 'Rcpt':
                state = True
                want = {'accept': R('rcpt_okay'), 'reject': REF, None: None}[dec] if opened else R('rcpt_before_mail')
            elif kind == 'Data':
                state = True
                if not opened:
                    want = R('data_before_mail')
                elif not st.gh.get('nacc'):
                    want = R('data_before_rcpt')
                else:
                    want = {'accept': R('data_okay'), 'reject': REF, None: None}[dec]
                    if dec == 'accept':
                        nxt = 'go'
            else:
                want = R('command_unimplemented')
        elif ph == 'final':
            self.judge(('C06',), 'the final reply is sent only for a message checked for completeness', bool(st.gh.get('checked')), where,
                       'a final reply is sent although the application has not checked that the message is complete', site)
            want = R('mail_accepted') if dec == 'accept' else REF
        else:
            self.judge(('C01',), 'exactly one reply per command', False, where, 'a reply is sent %s' % self.WHILE.get(ph, 'although nothing is to be answered'), site)
            return []
        def nm(y):
            return 'nothing yet' if y is None else 'the refusal' if y == REF else y[0].split(':')[1] if y[0].startswith('REPLY:') and y[1] == 0 else str(y)
        ok = want is not None and name == want
        self.judge(('C04', 'C05') if state and name != REF and want != REF else ('C04',), 'each outcome gets its own reply', ok, where,
                   'replies with %s to %s%s, expected %s' % (nm(name) if name else '%s %s' % tuple(show(v)[:40] for v in tup[0][3]), kind, ' (transaction open)' if opened else '', nm(want)), site)
        if not ok and self.ctx.pid not in ('C04', 'C05'):
            pass
        st.gh['phase'] = ('K', nxt)
        if nxt == 'idle':
            for g in ('kind', 'dec', 'asked', 'told', 'checked', 'self'):
                st.gh.pop(g, None)
        bad = st.copy()
        bad.gh['failed'] = TRUE
        return [(st, READY(OK(UNIT))), (bad, READY(ERR(('O', None, ('WRITE ERROR', 0)))))]

    # -- the session
    def client(self, ip, st, stage):
        b = self.body
        if stage == 'start':
            args = []
            for i in range(b.argc):
                t = self.prog.types[b.locals[i + 1]]
                cell = ('L', 0, 'arg%d' % i)
                if t['k'] == 'ref':
                    st.mem[cell] = ('O', t['e'], ('arg%d' % i, 0))
                    args.append(('R', cell, ()))
                elif t['k'] == 'adt' and t['p'].endswith('Pin'):
                    st.mem[cell] = ('O', None, ('arg%d' % i, 0))
                    args.append(TUP(('R', cell, ())))
                else:
                    args.append(('O', b.locals[i + 1], ('arg%d' % i, 0)))
            return [self.go(ip, st, b, args, 'future')]
        if stage == 'future':
            st.mem[('L', 0, 'fut')] = st.mem.pop(('L', 0, 'ret'))
            return self.poll_fn(ip, st, ('L', 0, 'fut'), 'over')
        r = st.proj(st.proj(st.mem[('L', 0, 'ret')], ('d', 0)), ('f', 0, None))
        ok = st.variant_of(r) == 0
        failed = bool(st.gh.get('failed'))
        where, site = b.span, [b.path]
        self.judge(('C07',), 'a failed write ends the session with that error', ok != failed, where, 'the session ends %s' % ('normally although a reply could not be written' if ok else 'with an error although every reply was written'), site)
        if not ok and failed:
            e = st.proj(st.proj(r, ('d', 1)), ('f', 0, None))
            self.judge(('C07',), 'a failed write ends the session with that error', e[0] == 'O' and e[2] == ('WRITE ERROR', 0), where, 'the session ends with %s' % show(e)[:60], site)
        if ok and not failed:
            self.judge(('C01',), 'a session ends only with the input', bool(st.gh.get('fin')), where, 'the session ends although the input has not', site)
            ph = st.gh['phase'][1]
            self.judge(('C01',), 'every line is answered', ph == 'idle', where, 'the session ends %s' % self.WHILE.get(ph, ph), site)
        return []

    def on_panic(self, ip, st, kind, span):
        # the only abort left to the application: it took the message without checking its end
        if st.gh['phase'][1] == 'final' and not st.gh.get('checked'):
            return
        self.judge(('C26', 'C01'), 'never aborts', False, str(span), 'abort: %s' % kind, ip.where(st))

def session(ctx):
    env = SessionEnv(ctx.prog)
    ip = ctx.make(env)
    m, s = (lambda n: ctx.root(n, 'smtp_message')), (lambda n: ctx.root(n, 'smtp_server'))
    env.body, env.send = s('interact::interact'), s('sendreply::send_reply')
    env.parse, env.dnew, env.was, env.complete = m('Command::parse'), m("DataStream::<'a, S>::new"), m("DataStream::<'a, S>::was_completed"), m("DataStream::<'a, S>::complete")
    env.prepend, env.ppoll = m('Prependable::<S>::prepend'), m('Prependable<S> as futures::Stream>::poll_next')
    if not all((env.body, env.send, env.parse, env.dnew, env.was, env.complete, env.prepend, env.ppoll)):
        return
    # the operations on the very reader the session uses
    for n in ('prepend', 'ppoll'):
        k = [b for (c, inst), b in ctx.prog.bykey.items() if inst.endswith('@interact::interact') and ctx.prog.bodies[b].dp == getattr(env, n).dp]
        if k:
            setattr(env, n, ctx.prog.bodies[k[0]])
    ty = lambda suffix: [i for i, t in enumerate(ctx.prog.types) if t and t.get('k') == 'adt' and t['p'].endswith(suffix)]
    prog = ctx.prog
    env.decty = ty('decision::Decision')[0]
    env.dec = prog.types[env.decty]
    env.cmdty = [i for i in ty('command::Command') + ty('::Command') if len(prog.types[i]['v']) > 3][0]
    env.cmd = prog.types[env.cmdty]
    em = ty('email::Email') + ty('::Email')
    opt = [i for i in ty('option::Option') if prog.types[i].get('a') == [em[0]]]
    env.addrty = dict(filter_from=opt[0] if opt else None, filter_to=em[0])
    st = ip.new_state()
    st.gh['phase'] = ('K', 'greet')
    st.gh['c'] = st.gh['rp'] = st.gh['r'] = ('L', const(0))
    env.init(ip, st, 'start')
    ctx.explore(ip, [st])
    ctx.note('client', 'a whole session over any input in any pieces, any application, replies that fail at any point')

class only:
    """within: only these rules are judged (the analysis serves several properties)"""
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
    def __enter__(self):
        self.ctx.only = self.f
    def __exit__(self, *a):
        self.ctx.only = None

for pid in ('C02', 'C03', 'C04', 'C05', 'C32'):
    reg(pid)(session)

COMPLETE = ('nothing follows the last line of a reply', 'a reply has exactly one last line', 'a reply is flushed', 'what is sent are reply lines', 'a line is marked as last or not')
@reg('C01')
def c01(ctx):
    session(ctx)
    with only(ctx, lambda r: r in COMPLETE):
        replies(ctx)
        wire(ctx)

@reg('C06')
def c06(ctx):
    session(ctx)
    streams.decode(ctx)

@reg('C08')
def c08(ctx):
    session(ctx)
    streams.decode(ctx)

FAILED = ('nothing is written after a failed write', 'a failed write is reported')
@reg('C07')
def c07(ctx):
    session(ctx)
    with only(ctx, lambda r: r in FAILED):
        replies(ctx)
        wire(ctx)

@reg('C26')
def c26(ctx):
    with only(ctx, lambda r: r.endswith('never aborts')):
        session(ctx)
        replies(ctx)
        wire(ctx)
        streams.c24(ctx)
        streams.c25(ctx)
        streams.decode(ctx)
    bad = set(v['where'] for v in ctx.violations)
    for kind, where in sorted(ctx.guards):
        if where not in bad:
            ctx.ob('%s: never fails' % kind, True)
    ctx.note('guarded_operations', len(ctx.guards))
