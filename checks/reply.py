"""C09, C10, C12: reply lines and codes"""
from checks.registry import reg
from checks.base import *
import lin
from lin import const, add, addc, sub as lsub, scale, is_const
from interp import *
from models import *

PRINT = mask_of(lambda b: b == 9 or 32 <= b <= 126)

class BuildEnv(Env):
    """reply line construction; `w` is an arbitrary but fixed position of the text (Skolem constant)"""
    def on_byte(self, st, base, pos):
        if base == self.base:
            d = lsub(pos, self.w)
            r = st.ev(('eq', d) if not is_const(d) else d[0] == 0)
            if r is None:
                raise Split([('eq', d), ('ge', addc(d, -1)), ('ge', addc(scale(d, -1), -1))])
            st.gh['seen'] = ('K', 'now' if r else 'before' if st.ent(d) is False else 'after')

    def terminal(self, ip, st):
        ctx = self.ctx
        where = self.body.span
        ret = st.ret
        n = self.n
        var = st.variant_of(ret)
        if ip.debug: print('TERM', show(ret), [lin.show(c) for c in st.cons], [(lin.show(k[1]),show_mask(m)) for k,m in st.bm.items()], st.gh)
        ctx.sample('%s: %s' % ('Ok' if var == 0 else 'Err', show(ret)[:120]))
        if var == 0:
            ctx.ob('a built line has at most 506 bytes', st.ent(addc(scale(n, -1), 506)), where,
                   'a text longer than 506 bytes is accepted', [self.body.path])
            if st.gh.get('w'):
                m = st.bmask(self.base, self.w)
                ctx.ob('every byte of a built line is a tab or printable ASCII', m & ~PRINT == 0, where,
                       'bytes %s are accepted in a reply text' % show_mask(m & ~PRINT)[:80], [self.body.path])
            v = st.proj(st.proj(ret, ('d', 0)), ('f', 0, None))
            ctx.ob('a built line keeps code, flag and text', self.same(st, v), where,
                   'the built line does not hold the arguments: %s' % show(v)[:100], [self.body.path])
        else:
            long = st.ent(addc(n, -507))
            bad = False
            for (b, p), m in st.bm.items():
                if b == self.base and m & PRINT == 0 and st.ent(p) and st.ent(addc(lsub(n, p), -1)):
                    bad = True
            ctx.ob('only too long or unprintable texts are refused', long or bad, where,
                   'a printable text of at most 506 bytes is refused', [self.body.path])
            e = collapse(st.proj(st.proj(ret, ('d', 1)), ('f', 0, None)))
            if e[0] != 'A' or e[1] is None:
                raise Unsupported('error %s' % show(e))
            vr = ip.prog.types[e[1]]['v'][e[2]]
            f = {x['n']: v for x, v in zip(vr['f'], e[3])}
            if vr['n'] == 'LineTooLong':
                ok = st.ent_eq(lsub(f['length'][1], n)) and st.ent_eq(addc(f['limit'][1], -506))
            elif vr['n'] in ('DisallowedByte', 'ContainsNewLine'):
                p = f['pos'][1]
                ok = st.ent(p) and st.ent(addc(lsub(n, p), -1))
                if ok:
                    segs = self.txt[1]
                    m = st.bmask(self.base, p)
                    ok = m & (PRINT if vr['n'] == 'DisallowedByte' else FULL & ~mask_of(lambda b: b in (10, 13))) == 0
                    if ok and 'b' in f:
                        ok = st.ent_eq(lsub(f['b'][1], st.byte_at(segs, p)[1]))
            else:
                raise Unsupported('error ' + vr['n'])
            ctx.ob('an error tells the length and the limit, or a refused byte and its position', ok, where,
                   'the error is %s' % show(e)[:120], [self.body.path])

    def same(self, st, v):
        v = collapse(v)
        if v[0] == 'O':
            return False
        got = [collapse(f) for f in v[3]]
        return sorted(map(repr, [symof(g) for g in got])) == sorted(map(repr, [symof(a) for a in self.args]))

    def panic(self, ip, st, kind, span):
        self.ctx.ob('building never aborts', False, str(span), 'abort: ' + kind, ip.where(st))

@reg('C09')
def c09(ctx):
    b = ctx.root('ReplyLine::build', 'smtp_message')
    if b is None:
        return
    for empty in (True, False):
        env = BuildEnv(ctx.prog)
        ip = ctx.make(env)
        ip.debug = 'VPD' in os.environ
        env.body = b
        st = ip.new_state()
        args = [st.opaque(b.locals[i + 1], (nm, 0)) for i, nm in enumerate(('code', 'last', 'line'))]
        txt = bytes_in(st, args[2])
        env.base = txt[1][0][1]
        env.n = txt[1][0][3]
        env.txt = txt
        env.w = lin.sym(('o', ('w', 0)))
        env.args = args
        if empty:
            st.assume(('eq', env.n))
        else:
            st.gh['w'] = ('L', env.w)
            st.cons = st.cons | frozenset([env.w, addc(lsub(env.n, env.w), -1)])
            ip.on_byte = env.on_byte
        ip.push(st, b.id, args, None, None)
        ctx.explore(ip, [st])

def bytes_in(st, v):
    """the byte sequence inside a wrapper struct"""
    for _ in range(8):
        if v[0] == 'S':
            return v
        v = st.proj(v, ('f', 0, None))
    raise Unsupported('bytes of %s' % show(v))

# ---------------------------------------------------------------- C10
class WireEnv(IoEnv):
    failing = False
    def terminal(self, ip, st):
        ctx = self.ctx
        b = self.body
        where = b.span
        ctx.ob('writing to a working output succeeds', st.variant_of(st.ret) == 0, where, 'error although every write succeeded', [b.path])
        ctx.ob('every part is written completely', 'owed' not in st.gh, where, 'part of the line may be left unwritten', [b.path])
        out = st.gh.get('out', ('S', ()))
        last = ip.prog.types[self.last[1]]['v'][st.vf[self.last[2]]]['n'] if self.last[0] == 'O' and self.last[2] in st.vf else None
        sep = {'Yes': b' ', 'No': b'-'}.get(last)
        ctx.sample('%s: %s' % (last, show(out)[:150]))
        if not ctx.ob('the continuation flag decides the separator', sep is not None, where,
                      'the line written does not depend on the last-line flag: %s' % show(out)[:80], [b.path]):
            return
        segs = out[1]
        n = seglen(segs)
        txt = self.txt
        tl = seglen(txt[1])
        want = addc(tl, 6)
        if not ctx.ob('a line has code, separator, text and line end', st.ent_eq(lsub(n, want)), where,
                      'length written is %s, expected %s' % (lin.show(n), lin.show(want)), [b.path]):
            return
        ds = []
        for i in range(3):
            ds.append(addc(st.byte_at(segs, const(i))[1], -48))
        ok = all(st.ent(d) and st.ent(addc(scale(d, -1), 9)) for d in ds)
        val = add(add(scale(ds[0], 100), scale(ds[1], 10)), ds[2])
        ctx.ob('the code is written as three zero-padded digits', ok and st.ent_eq(lsub(val, self.code)), where,
               'the three bytes before the separator are not the digits of the code', [b.path])
        s = st.byte_at(segs, const(3))[1]
        ctx.ob('space for the last line, hyphen otherwise', st.ent_eq(addc(s, -sep[0])), where,
               'separator is %s for %s' % (lin.show(s), last), [b.path])
        mid = st.cut(segs, const(4), addc(n, -2))
        ctx.ob('the text is written unchanged', eq_segs(st, mid, txt[1]), where, 'text written: %s' % show(('S', mid))[:80], [b.path])
        end = st.cut(segs, addc(n, -2), n)
        ctx.ob('the line ends with CRLF', end == (('lit', b'\r\n'),), where, 'line end written: %s' % show(('S', end))[:80], [b.path])

    def panic(self, ip, st, kind, span):
        self.ctx.ob('writing never aborts', False, str(span), 'abort: ' + kind, ip.where(st))

def eq_segs(st, a, b):
    a, b = st.mergesegs(a), st.mergesegs(b)
    if a == b:
        return True
    if not st.ent_eq(lsub(seglen(a), seglen(b))):
        return False
    if st.ent_eq(seglen(a)):
        return True
    a, b = ([x for x in y if not st.ent_eq(seglen((x,)))] for y in (a, b))
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == 'sub':
            if x[1] != y[1] or not st.ent_eq(lsub(x[2], y[2])) or not st.ent_eq(lsub(x[3], y[3])):
                return False
        elif x != y:
            return False
    return True

class LenEnv(Env):
    def terminal(self, ip, st):
        self.ctx.ob('the announced length is the written length', st.ret[0] == 'i' and st.ent_eq(lsub(st.ret[1], addc(seglen(self.txt[1]), 6))),
                    self.body.span, 'announced length %s, written length %s' % (show(st.ret), lin.show(addc(seglen(self.txt[1]), 6))), [self.body.path])

def reply_line(ctx, ip, st, ty):
    """an arbitrary reply line whose code is below 1000 (C12)"""
    t = ctx.prog.types[ty]
    fs = {f['n']: i for i, f in enumerate(t['v'][0]['f'])}
    self = st.opaque(ty, ('self', 0))
    by = {}
    for f in t['v'][0]['f']:
        ft = ctx.prog.types[f['t']]
        by[ft.get('p', '').rsplit('::', 1)[-1]] = f
    def field(name):
        i = t['v'][0]['f'].index(by[name])
        return st.proj(self, ('f', i, by[name]['t']))
    code = field('ReplyCode')
    for _ in range(3):
        if code[0] == 'i':
            break
        code = st.proj(code, ('f', 0, None))
    st.assume(('ge', addc(scale(code[1], -1), 999)))
    txt = bytes_in(st, field('SmtpString'))
    return self, code[1], field('IsLastLine'), txt

@reg('C10')
def c10(ctx):
    b = ctx.root('ReplyLine::send_to', 'smtp_message')
    if b is not None:
        env = WireEnv(ctx.prog)
        ip = ctx.make(env)
        env.body = b
        st = ip.new_state()
        ty = ctx.prog.types[b.locals[1]]['e']
        self, env.code, env.last, env.txt = reply_line(ctx, ip, st, ty)
        ip.push(st, b.id, [('V', self), ('O', b.locals[2], ('writer', 0))], None, None)
        ctx.explore(ip, [st])
    b = ctx.root('ReplyLine::byte_len', 'smtp_message')
    if b is not None:
        env = LenEnv(ctx.prog)
        ip = ctx.make(env)
        env.body = b
        st = ip.new_state()
        self, _, _, env.txt = reply_line(ctx, ip, st, ctx.prog.types[b.locals[1]]['e'])
        ip.push(st, b.id, [('V', self)], None, None)
        ctx.explore(ip, [st])

# ---------------------------------------------------------------- C12
RFC_CODES = dict(SYSTEM_STATUS=211, HELP_MESSAGE=214, SERVICE_READY=220, CLOSING_CHANNEL=221, OKAY=250,
    USER_NOT_LOCAL_WILL_FORWARD=251, CANNOT_VRFY_BUT_PLEASE_TRY=252, START_MAIL_INPUT=354, SERVICE_NOT_AVAILABLE=421,
    MAILBOX_TEMPORARILY_UNAVAILABLE=450, LOCAL_ERROR=451, INSUFFICIENT_STORAGE=452, UNABLE_TO_ACCEPT_PARAMETERS=455,
    COMMAND_UNRECOGNIZED=500, SYNTAX_ERROR=501, COMMAND_UNIMPLEMENTED=502, BAD_SEQUENCE=503, PARAMETER_UNIMPLEMENTED=504,
    MAILBOX_UNAVAILABLE=550, POLICY_REASON=550, USER_NOT_LOCAL=551, EXCEEDED_STORAGE=552, MAILBOX_NAME_INCORRECT=553,
    TRANSACTION_FAILED=554, MAIL_OR_RCPT_PARAMETER_UNIMPLEMENTED=555)
DEFAULT_CODES = dict(welcome_banner=220, okay=250, mail_okay=250, rcpt_okay=250, mail_accepted=250, data_okay=354,
    bad_sequence=503, already_in_mail=503, rcpt_before_mail=503, data_before_rcpt=503, data_before_mail=503,
    command_unimplemented=502, command_unrecognized=500)
CODE_T = 'reply::ReplyCode'

def code_types(prog):
    return set(i for i, t in enumerate(prog.types) if t and t.get('k') == 'adt' and t['p'].split('::', 1)[-1].endswith('ReplyCode')
               and (t['p'].endswith(CODE_T) or t['p'].endswith('smtp_message::ReplyCode')))

def const_code(v):
    """the number inside a constant ReplyCode as dumped"""
    while isinstance(v, dict) and 'f' in v and len(v['f']) == 1:
        v = v['f'][0]
    return v.get('i') if isinstance(v, dict) else None

def kcode(v):
    while isinstance(v, tuple) and v and v[0] in ('adt', 'ref'):
        v = v[2][0] if v[0] == 'adt' and len(v[2]) == 1 else v[1] if v[0] == 'ref' else None
    return v[1] if isinstance(v, tuple) and v and v[0] == 'i' else None

class CodeEnv(Env):
    use_defaults = True
    def on_agg(self, st, ty, variant, vs):
        if ty in self.codes:
            v = vs[0]
            self.ctx.ob('a reply code is below 1000 wherever one is made',
                        v[0] == 'i' and st.ent(v[1]) and st.ent(addc(scale(v[1], -1), 999)),
                        st.ip.cur_span(st), 'a reply code of 1000 or more can be made here', st.ip.where(st))
    def terminal(self, ip, st):
        f = getattr(self, 'judge', None)
        if f:
            f(ip, st)

@reg('C12')
def c12(ctx):
    prog = ctx.prog
    codes = code_types(prog)
    for c in prog.consts:
        if c['t'] in codes:
            name = c['path'].rsplit('::', 1)[-1]
            v = const_code(c['v'])
            ctx.ob('named codes are below 1000', v is not None and 0 <= v < 1000, c['path'], 'value %s' % v)
            if name in RFC_CODES and c['path'].endswith('ReplyCode::' + name):
                ctx.ob('named codes have the value the protocol assigns', v == RFC_CODES[name], c['path'],
                       'value %s, expected %s' % (v, RFC_CODES[name]))
    # field not writable from elsewhere
    for a in prog.adts:
        if a['t'] in codes:
            for v in prog.types[a['t']]['v']:
                for f in v['f']:
                    ctx.ob('the number inside a reply code is private', not f['pub'], a['path'], 'field %s is public' % f['n'])
    # every place that makes a reply code
    for b in prog.bodies:
        if not b.local:
            continue
        makes = False
        for blk in b.blocks:
            for s in blk[0]:
                if s[0] != '=':
                    continue
                if s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] in codes:
                    makes = True
                if s[1][1] and s[1][1][-1][0] == 'f' and writes_field(prog, b, s[1], codes):
                    ctx.ob('the number inside a reply code is never changed afterwards', False, s[3], 'assignment to the number of a reply code', [b.path])
            for k in konsts(blk):
                if k[1] in codes:
                    v = kcode(k[2])
                    ctx.ob('constant codes are below 1000', v is None or v < 1000, b.path, 'code %s' % v, [b.path])
        if makes:
            env = CodeEnv(prog)
            env.codes = codes
            ip = ctx.make(env)
            ip.on_agg = env.on_agg
            st = ip.new_state()
            n = b.argc
            ip.push(st, b.id, [st.opaque(b.locals[i + 1], ('arg', -1 - i)) for i in range(n)], None, None)
            ctx.explore(ip, [st])
    # accessor and constructor
    for nm, arg in (('ReplyCode::code', True), ('ReplyCode::custom', False)):
        b = ctx.root(nm, 'smtp_message')
        if b is None:
            continue
        env = CodeEnv(prog)
        env.codes = codes
        ip = ctx.make(env)
        st = ip.new_state()
        t = b.locals[1]
        if prog.types[t]['k'] == 'ref':
            v = st.opaque(prog.types[t]['e'], ('self', 0))
            a = ('V', v)
        else:
            a = v = st.opaque(t, ('self', 0))
        num = v
        while num[0] != 'i':
            num = st.proj(num, ('f', 0, None))
        n0 = num[1]
        def judge(ip, s, n0=n0, b=b):
            r = s.ret
            while r[0] != 'i':
                r = s.proj(r, ('f', 0, None))
            ctx.ob('making and reading a code keep its number', s.ent_eq(lsub(r[1], n0)), b.span, 'the number changes', [b.path])
            ctx.ob('made codes are below 1000', nm.endswith('code') or s.ent(addc(scale(n0, -1), 999)), b.span, 'a number of 1000 or more is accepted', [b.path])
        env.judge = judge
        def panic(ip, s, kind, span, n0=n0, b=b):
            ctx.ob('every number below 1000 is accepted', s.ent(addc(n0, -1000)), str(span), 'a number below 1000 is refused', [b.path])
        env.panic = panic
        ip.push(st, b.id, [a], None, None)
        ctx.explore(ip, [st])
    # defaults of the application interface
    for b in prog.bodies:
        if b.kind == 'fn' and b.trait_default and b.trait_default.endswith('config::Config'):
            name = b.path.rsplit('::', 1)[-1]
            if name not in DEFAULT_CODES:
                continue
            env = DefEnv(prog)
            env.codes = codes
            ip = ctx.make(env)
            st = ip.new_state()
            def judge(ip, s, b=b, name=name, env=env):
                v = s.ret
                for _ in range(4):
                    if v[0] == 'i':
                        break
                    v = s.proj(v, ('f', 0, None))
                ctx.sample('%s: %s' % (name, show(v)))
                ctx.ob('default replies carry the agreed code', v[0] == 'i' and s.ent_eq(addc(v[1], -DEFAULT_CODES[name])), b.span,
                       'default of %s has code %s, expected %d' % (name, show(v), DEFAULT_CODES[name]), [b.path])
            env.judge = judge
            ip.push(st, b.id, [('O', b.locals[1], ('cfg', 0))], None, None)
            ctx.explore(ip, [st])

class DefEnv(CodeEnv):
    def call(self, x):
        # hooks without a default: an arbitrary value
        if (x.c.get('trait') or '').endswith('config::Config') and self.ip.models.resolve(x.ip, x.st, x.c, x.a) is None and x.ip.prog.body_of(x.c) is None:
            return one(x.st, x.st.opaque(x.dty, x.st.freshsym('hook')))
        return None

class TextEnv(DefEnv):
    def call(self, x):
        if (x.c.get('trait') or '').endswith('config::Config') and x.m in ('hostname', 'banner') and x.ip.where(x.st):
            return one(x.st, x.st.opaque(x.dty, ('hook ' + x.m, 0)))
        return DefEnv.call(self, x)
    def on_agg(self, st, ty, variant, vs):
        pass
    def panic(self, ip, st, kind, span):
        self.ctx.ob('making a default reply never aborts', False, str(span), 'abort: ' + kind, ip.where(st))

@reg('C35')
def c35(ctx):
    """the default replies of the application interface, and its default decisions"""
    prog = ctx.prog
    seen = set()
    for b in prog.bodies:
        if b.kind != 'fn' or not b.trait_default or not b.trait_default.endswith('config::Config'):
            continue
        name = b.path.rsplit('::', 1)[-1]
        seen.add(name)
        env = TextEnv(prog)
        ip = ctx.make(env)
        st = ip.new_state()
        def judge(ip, s, b=b, name=name, env=env):
            v = s.ret
            t = prog.types[b.locals[0]]
            if name in DEFAULT_CODES or name == 'banner':
                v = bytes_in(s, s.proj(v, ('f', 1, None)) if name != 'banner' else v)
                segs = s.mergesegs(v[1])
                ctx.sample('%s: %s' % (name, show(v)))
                what = []
                for g in segs:
                    if g[0] == 'lit':
                        ctx.ob('default texts are printable', all(PRINT >> c & 1 for c in g[1]), b.span, 'the default of %s holds %r' % (name, g[1]), [b.path])
                        what.append(g[1])
                    elif g[0] == 'sub' and g[2] == const(0) and s.ent_eq(lsub(g[3], lin.sym(('o', ('.', g[1], 'len'))))):
                        y = g[1]
                        while isinstance(y, tuple) and y[0] == '.':
                            y = y[1]
                        what.append(y[0])
                    else:
                        what.append(show(('S', (g,))))
                if name == 'welcome_banner':
                    want = ()
                    for h in ('hostname', None, 'banner'):
                        want += bytes_in(s, s.opaque(t['f'][1], ('hook ' + h, 0)))[1] if h else (('lit', b' '),)
                    ctx.ob('the default greeting is the host name, a blank and the banner', eq_segs(s, segs, want), b.span, 'the greeting is %s' % what, [b.path])
                else:
                    ctx.ob('default texts are constant', all(isinstance(w, bytes) for w in what), b.span, 'the text of %s is %s' % (name, what), [b.path])
                    ctx.ob('default texts are not empty', bool(what), b.span, 'the text of %s is empty' % name, [b.path])
            elif name in ('new_mail', 'filter_data'):
                for _ in range(12):
                    if v[0] == 'A' and len(v[3]) == 1:
                        v = collapse(v[3][0])
                    elif v[0] == 'N' and v[1] == 'box':
                        v = s.load(v[2][0], ())
                    elif v[0] == 'R':
                        v = s.deref(v)
                    else:
                        break
                if v[0] not in ('A', 'O') or v[0] == 'O':
                    raise Unsupported('default of %s is %s' % (name, show(v)[:60]))
                if name == 'filter_data':
                    dt = prog.types[v[1]] if v[1] is not None else None
                    if not dt or not dt['p'].endswith('Decision'):
                        raise Unsupported('default of %s is %s' % (name, show(v)[:60]))
                    ctx.ob('data is accepted unless the application decides otherwise', dt['v'][v[2]]['n'] == 'Accept', b.span, 'the default decision is %s' % dt['v'][v[2]]['n'], [b.path])
                else:
                    ctx.ob('the default announcement does nothing', v == UNIT or v[0] == 'A' and not v[3], b.span, 'is %s' % show(v)[:60], [b.path])
        env.judge = judge
        ip.push(st, b.id, [('R', st.newheap(('O', b.locals[i + 1], ('given%d' % i, 0))), ()) if i else ('O', b.locals[1], ('cfg', 0)) for i in range(b.argc)], None, None)
        ctx.explore(ip, [st])
    ctx.note('defaults', sorted(seen))

def konsts(blk):
    """all constant operands of a block"""
    out = []
    def rec(t):
        if isinstance(t, tuple):
            if len(t) >= 3 and t[0] == 'k' and isinstance(t[1], int) and isinstance(t[2], tuple):
                out.append(t)
                return
            for x in t:
                rec(x)
        elif isinstance(t, list):
            for x in t:
                rec(x)
    rec(blk[0])
    rec(blk[1])
    return out

def place_types(prog, b, p):
    """types along a place: [type of local, after 1 projection, ...] (None if unknown)"""
    ts = [b.locals[p[0]]]
    var = 0
    for e in p[1]:
        t = prog.types[ts[-1]] if ts[-1] is not None else None
        n = None
        if e[0] == '*' and t:
            n = t.get('e')
            if n is None and t.get('k') == 'adt' and t['a']:
                n = t['a'][0]
        elif e[0] == 'd':
            n = ts[-1]
            var = e[1]
        elif e[0] == 'f':
            n = e[2] if len(e) > 2 else None
        ts.append(n)
    return ts

def writes_field(prog, b, p, codes):
    ts = place_types(prog, b, p)
    return any(e[0] == 'f' and ts[i] in codes for i, e in enumerate(p[1]))
