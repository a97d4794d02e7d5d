"""C13-C16: the grammar, decided as regular languages (engine/peg.py) against references written from the RFC"""
import os
from checks.registry import reg
import fa, rsyn, peg
from rsyn import Unsupported
from prog import Unsupported as NotModelled

VERBS = {'DataCommand': b'DATA', 'EhloCommand': b'EHLO', 'ExpnCommand': b'EXPN', 'HeloCommand': b'HELO', 'HelpCommand': b'HELP',
         'MailCommand': b'MAIL FROM:', 'NoopCommand': b'NOOP', 'QuitCommand': b'QUIT', 'RcptCommand': b'RCPT TO:',
         'RsetCommand': b'RSET', 'VrfyCommand': b'VRFY'}
DIGIT = set(range(48, 58))
UPPER, LOWER = set(range(65, 91)), set(range(97, 123))
ALPHA = UPPER | LOWER
ALNUM = ALPHA | DIGIT
ATEXT = ALNUM | set(b"!#$%&'*+-/=?^_`{|}~")
BLANK = {32, 9}
PRINT = set(range(32, 127))
GRAPH = set(range(33, 127))
QTEXT = PRINT - {34, 92}
SETS = [DIGIT, UPPER, LOWER, ALNUM | {45}, ATEXT, BLANK, PRINT, QTEXT, {13}, {10}, {46}, {45}, {61}, {32}, peg.HEX, GRAPH - {61}] + \
       [{c} for c in b'<>:@,"\\[]. =-'] + [{b} for v in VERBS.values() for b in v] + [{b | 32} for v in VERBS.values() for b in v if b in UPPER] + \
       [{c} for c in b'IPv6ipV12345'] + [set(range(48, 53)), set(range(48, 54)), set(range(48, 58))]

class Ref:
    """reference grammars (RFC 5321 section 4.1) and the deviations the implementation documents, with the same labels"""
    def __init__(self, g):
        self.g = g
        w = g.word
        self.B = g.many_of(g.cls(BLANK))
        self.crlf = w(b'\r\n')
        self.nl = fa.concat(g.sstar, self.crlf, g.sstar)        # contains a line break
        self.noline = g.comp(self.nl)
        # words w such that the first CRLF of  w CRLF  is the one at the end
        self.line = self.before(self.crlf)
    def before(self, d):
        g = self.g
        return g.comp(fa.concat(g.sstar, self.crlf, g.sstar))
    def cap(self, l, d):
        return fa.wrap([('(', l)], d, [(')', l)])
    def opt(self, d):
        return fa.union(fa.EPS, d)
    def cs(self, s, least=1):
        return self.g.many_of(self.g.cls(s), least)
    def verb(self, v):
        return self.g.word(v, True)
    # -- pieces
    def host(self, rfc=False):
        g = self.g
        ld = g.setl(ALNUM)
        if rfc:
            lab = fa.concat(ld, self.opt(fa.concat(self.cs(ALNUM | {45}, 0), ld)))
        else:
            lab = fa.concat(ld, self.cs(ALNUM | {45}, 0))
        return fa.concat(lab, fa.star_(fa.concat(g.word(b'.'), lab)))
    def domain(self, p, rfc=False):
        g = self.g
        c = (lambda l, d: d) if p is None else self.cap
        q = p or ''
        tag = g.word(b'[IPv6:', True)
        return fa.union(c(q + '.SmtpString', self.host(rfc)),
                        fa.concat(g.word(b'['), c(q + '.IpAddr:Ipv4Addr', g.ipv4()), g.word(b']')),
                        fa.concat(tag, c(q + '.IpAddr:Ipv6Addr', g.ipv6(rfc=rfc)), g.word(b']')))
    def local(self):
        g = self.g
        atom = self.cs(ATEXT)
        dot = fa.concat(atom, fa.star_(fa.concat(g.word(b'.'), atom)))
        q = g.word(b'"')
        return fa.union(dot, fa.concat(q, fa.star_(fa.union(g.setl(QTEXT), fa.concat(g.word(b'\\'), g.setl(PRINT)))), q))
    def mailbox(self, p, rfc=False):
        g = self.g
        d = fa.concat(g.word(b'@'), self.domain(p + '.Domain', rfc))
        return fa.concat(self.cap(p + '.SmtpString', self.local()), d if rfc else self.opt(d))
    def route(self, rfc=False):
        g = self.g
        a = fa.concat(g.word(b'@'), self.domain(None, rfc))
        l = fa.concat(a, fa.star_(fa.concat(g.word(b','), a)))
        if rfc:
            return self.opt(fa.concat(l, g.word(b':')))
        return self.opt(fa.concat(self.opt(l), g.word(b':')))
    def path(self, p, rfc=False):
        g = self.g
        m = fa.concat(self.route(rfc), self.mailbox(p, rfc))
        br = fa.concat(g.word(b'<'), m, g.word(b'>'))
        return br if rfc else fa.union(br, m)
    def params(self, p, rfc=False):
        g = self.g
        one = fa.concat(g.word(b' ') if rfc else self.cs(BLANK), self.cap(p + '[].0', fa.concat(g.setl(ALNUM), self.cs(ALNUM | {45}, 0))),
                        self.opt(fa.concat(g.word(b'='), self.cap(p + '[].1', self.cs(GRAPH - {61})))))
        return fa.star_(one)
    def text(self, l):
        """any text up to the first line break"""
        return self.line_capture(l)
    def line_capture(self, l):
        g = self.g
        t = fa.concat(self.cap(l, g.sstar), self.crlf)
        # no line break before the end
        def only_last(d):
            early = fa.concat(g.sstar, self.crlf, g.anylen(1), g.sstar)
            return fa.filt(d, g.comp(early))
        return only_last(t)
    def string(self, l):
        """RFC: Atom / Quoted-string"""
        g = self.g
        q = g.word(b'"')
        d = fa.union(self.cs(ATEXT), fa.concat(q, fa.star_(fa.union(g.setl(QTEXT), fa.concat(g.word(b'\\'), g.setl(PRINT)))), q))
        return self.cap(l, d)
    # -- commands
    def rfc(self, n):
        v = self.verb(VERBS[n])
        w = self.g.word
        cr, sp = self.crlf, w(b' ')
        if n in ('DataCommand', 'QuitCommand', 'RsetCommand'):
            return fa.concat(fa.mark(('=', '', n)), v, cr)
        if n == 'EhloCommand':
            return fa.concat(v, sp, self.domain(n, True), cr)
        if n == 'HeloCommand':
            return fa.concat(v, sp, self.cap(n + '.SmtpString', self.host(True)), cr)
        if n in ('VrfyCommand', 'ExpnCommand'):
            return fa.concat(v, sp, self.string(n), cr)
        if n in ('HelpCommand', 'NoopCommand'):
            return fa.union(fa.concat(v, sp, self.string(n), cr), fa.concat(v, self.cap(n, fa.EPS), cr))
        if n == 'MailCommand':
            p = fa.union(w(b'<>'), self.path(n + '.Email', True))
            return fa.concat(v, p, self.params(n + '.Parameters', True), cr)
        if n == 'RcptCommand':
            post = fa.concat(w(b'<'), self.cap(n + '.Email.SmtpString', self.verb(b'POSTMASTER')), w(b'>'))
            return fa.concat(v, fa.union(post, self.path(n + '.Email', True)), self.params(n + '.Parameters', True), cr)
    def tolerated(self, n):
        v = self.verb(VERBS[n])
        w = self.g.word
        cr, B = self.crlf, self.B
        if n in ('DataCommand', 'QuitCommand', 'RsetCommand'):
            return fa.concat(fa.mark(('=', '', n)), v, B, cr)
        if n in ('EhloCommand', 'HeloCommand'):
            return fa.concat(B, v, B, self.domain(n), B, cr, B)
        if n in ('VrfyCommand', 'ExpnCommand'):
            return fa.concat(v, self.g.setl(BLANK), self.text(n))
        if n in ('HelpCommand', 'NoopCommand'):
            # at most one blank is dropped before the text
            t = self.text(n)
            nb = fa.filt(t, self.g.rest_not(self.g.cls(BLANK)))
            return fa.union(fa.concat(v, self.g.setl(BLANK), t), fa.concat(v, nb))
        if n in ('MailCommand', 'RcptCommand'):
            p = self.path(n + '.Email')
            if n == 'MailCommand':
                p = fa.union(w(b'<>'), p)
            return fa.concat(v, B, p, self.params(n + '.Parameters'), B, cr)
    def reply(self):
        """Reply-line: code, separator, text, one line break"""
        g = self.g
        d3 = fa.lit([g.cls(DIGIT)] * 3)
        out = []
        for c, m in ((b' ', 'Yes'), (b'-', 'No')):
            out.append(fa.concat(fa.mark(('=', 'IsLastLine', m)), self.cap('ReplyCode:num', d3), g.word(c), self.line_capture('SmtpString')))
        return fa.union(*out)

class Parsers:
    """the parser definitions of smtp-message in the current tree"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = os.path.join(ctx.repo, 'smtp-message', 'src', 'lib.rs')
        self.crate = rsyn.Crate(self.root)
        self.g = peg.Grammar(self.crate, SETS)
    def where(self, name):
        p = self.g.find(name, None)
        if p is None:
            return name
        return '%s:%d' % (os.path.relpath(p.file, self.ctx.repo), p.line)
    def entry(self, owner, fname='parse'):
        """the parser a public parse function hands its input to"""
        fs = [f for f in self.crate.fns if f.owner == owner and f.name == fname]
        if len(fs) != 1:
            raise Unsupported('no function %s::%s' % (owner, fname))
        names = {p.name for p in self.crate.parsers}
        names |= {f.name for f in self.crate.fns if f.owner is None and f.ret and 'IResult' in rsyn.text(f.ret)}
        hit = set()
        def walk(ts):
            for i, t in enumerate(ts):
                if t.k == 'grp':
                    walk(t.sub)
                elif t.k == 'id' and t.v in names and i + 1 < len(ts) and rsyn.is_grp(ts[i + 1], '('):
                    hit.add(t.v)
        walk(fs[0].body.sub)
        if len(hit) != 1:
            # through a helper function of the crate
            raise Unsupported('cannot tell which parser %s::%s uses' % (owner, fname))
        return hit.pop(), fs[0]
    def branches(self, name):
        """the command parsers the command parser chooses from"""
        p = self.g.find(name, None)
        b = p.body
        # follow plain delegation
        while len(b) == 1 and rsyn.is_id(b[0]) and self.g.find(b[0].v, p.mod):
            p = self.g.find(b[0].v, p.mod)
            b = p.body
        if not (len(b) == 3 and rsyn.is_id(b[0]) and b[0].v in ('alt', 'alt_complete')):
            raise Unsupported('the command parser is no alternative')
        out = []
        for x in rsyn.split(b[2].sub, '|'):
            # alternatives delegated to a further plain choice
            if len(x) == 1 and rsyn.is_id(x[0]):
                q = self.g.find(x[0].v, p.mod)
                if q and len(q.body) == 3 and rsyn.is_id(q.body[0]) and q.body[0].v in ('alt', 'alt_complete'):
                    out += self.branches(x[0].v)[1]
                    continue
            out.append(x)
        return p, out

def guarded(f):
    def h(ctx):
        ctx.trusted = ['engine/rsyn.py (reader of the parser definitions)', 'engine/peg.py, engine/fa.py (nom 3.2 combinators as regular languages)',
                       'references in checks/grammar.py']
        ctx.assumptions += ['nom 3.2.1 combinators mean what engine/peg.py says (read off nom\'s macros; windows on the input behave as C19 decides)',
                            'Ipv4Addr, Ipv6Addr, u16 from_str and str::from_utf8 accept exactly the languages given in engine/peg.py']
        try:
            f(ctx)
        except (Unsupported, NotModelled, fa.TooBig) as e:
            ctx.incomplete.setdefault(str(e) or 'automaton too big', [])
    return h

def note(ctx, ps, **sizes):
    ctx.note('parsers_analysed', sorted('%s (%s:%d)' % (p.name, os.path.relpath(p.file, ctx.repo), p.line) for p in ps.g.used.values()))
    ctx.note('parser_expressions', ps.g.calls)
    ctx.note('byte_classes', ps.g.k)
    ctx.note('automaton_states', sizes)

def entry_point(ctx, owner):
    """the public function adds nothing to and takes nothing from what the grammar accepts"""
    from checks import parse
    es = parse.whole_input(ctx, lambda b: b.path.endswith('%s::parse' % owner), exact=True)
    if len(es) != 1:
        raise Unsupported('no function %s::parse' % owner)
    # the windows the grammar works on
    from checks.window import c19
    c19(ctx)

def panics(ctx, ps, name):
    for why, S in ps.g.panics:
        ctx.ob('parsing cannot panic', False, ps.where(name), '%s, for example on input %s' % (why, ps.g.show(fa.shortest(fa.erase(S)) or ())), [name])

def unlabel(d):
    return fa.erase(d)

def covers(ctx, ps, rule, a, b, name, msg, key=None):
    """every word of a is in b"""
    w = fa.subset(a, b)
    ctx.ob(rule, w is None, ps.where(name), '%s: %s' % (msg, ps.g.show(w) if w is not None else ''), [name], key)

@reg('C13')
@guarded
def c13(ctx):
    ps = Parsers(ctx)
    name, fn = ps.entry('ReplyLine')
    def go():
        g = ps.g
        r = g.parser(name)
        L, lab = peg.label(g, r)
        return L, Ref(g).reply()
    L, R = ps.g.run(go)
    panics(ctx, ps, name)
    covers(ctx, ps, 'every well-formed reply line is parsed into its parts', R, L, name, 'a well-formed reply line is refused or read differently')
    covers(ctx, ps, 'only well-formed reply lines are parsed', L, R, name, 'accepted or read differently')
    entry_point(ctx, 'ReplyLine')
    note(ctx, ps, parser=len(L), reference=len(R))

def commands(ctx, ps):
    name, fn = ps.entry('Command')
    g = ps.g
    r = g.parser(name)
    L, lab = peg.label(g, r)
    return name, L, lab

def verb_parser(ps, top, n):
    """the parser definition a command kind comes from, for reporting"""
    try:
        p, brs = ps.branches(top)
    except Unsupported:
        return top
    for b in brs:
        ids = [t.v for x in b if x.k == 'grp' for t in x.sub if t.k == 'id']
        if ids and any(i.lower() == n[:4].lower() for i in ids):
            for i in ids:
                if ps.g.find(i, p.mod):
                    return i
    return top

@reg('C14')
@guarded
def c14(ctx):
    ps = Parsers(ctx)
    def go():
        name, L, lab = commands(ctx, ps)
        ref = Ref(ps.g)
        return name, L, {n: ref.rfc(n) for n in VERBS}, {n: ref.tolerated(n) for n in VERBS}
    name, L, R, T = ps.g.run(go)
    panics(ctx, ps, name)
    for n in sorted(VERBS):
        p = verb_parser(ps, name, n)
        covers(ctx, ps, 'every valid %s command is recognised with its arguments' % VERBS[n].decode(), R[n], L, p,
               'valid, but refused or read differently')
    for n in sorted(VERBS):
        # lines starting with this verb
        g = ps.g
        lead = fa.concat(g.many_of(g.cls(BLANK)), g.word(VERBS[n], True), g.sstar)
        Ln = fa.filt(L, lead)
        p = verb_parser(ps, name, n)
        covers(ctx, ps, 'only the accepted forms of %s are recognised' % VERBS[n].decode(), Ln, T[n], p, 'recognised or read differently')
    allv = fa.union(*[fa.concat(ps.g.many_of(ps.g.cls(BLANK)), ps.g.word(v, True), ps.g.sstar) for v in VERBS.values()])
    w = fa.subset(unlabel(L), allv)
    ctx.ob('a recognised line starts with a verb', w is None, ps.where(name), 'recognised: %s' % (ps.g.show(w) if w else ''), [name])
    entry_point(ctx, 'Command')
    note(ctx, ps, parser=len(L), rfc=sum(map(len, R.values())), tolerated=sum(map(len, T.values())))

@reg('C15')
@guarded
def c15(ctx):
    ps = Parsers(ctx)
    g = ps.g
    def go():
        name, fn = ps.entry('Command')
        p, brs = ps.branches(name)
        out = []
        for b in brs:
            r = g.expr(b, p.mod)
            L, lab = peg.label(g, r)
            t = r.t
            while t[0] == 'alt' and len(set(repr(x[:3]) for x in t[2].values())) == 1:
                t = next(iter(t[2].values()))
            if t[0] != 'va':
                raise Unsupported('value of a command parser')
            e = [x for x in ps.crate.enums if x.name == t[1]][0]
            pay = [v for v in e.variants if v[0] == t[2]][0]
            kind = rsyn.text(pay[2][0][1]) if pay[2] else t[2]
            ids = [x.v for y in b if y.k == 'grp' for x in y.sub if x.k == 'id' and g.find(x.v, p.mod)]
            out.append((kind, unlabel(L), ids[0] if ids else name))
        return name, out
    name, brs = g.run(go)
    panics(ctx, ps, name)
    B = g.many_of(g.cls(BLANK))
    for kind, L, p in brs:
        if kind not in VERBS:
            raise Unsupported('command kind %s' % kind)
        lead = fa.concat(B, g.word(VERBS[kind], True), g.sstar)
        w = fa.subset(L, lead)
        ctx.ob('a command is recognised only by its own verb', w is None, ps.where(p),
               'read as %s: %s' % (kind, g.show(w) if w else ''), [name, p])
    for i in range(len(brs)):
        for j in range(i):
            x = fa.inter(brs[i][1], brs[j][1])
            w = fa.shortest(x)
            ctx.ob('no line has two readings', w is None, ps.where(brs[i][2]),
                   'read as %s and as %s: %s' % (brs[i][0], brs[j][0], g.show(w) if w else ''), [brs[i][2], brs[j][2]])
    kinds = {k for k, _, _ in brs}
    for n in VERBS:
        ctx.ob('every verb has a parser', n in kinds, ps.where(name), 'no parser yields %s' % n, [name])
    from checks import wire
    for kind, (env, b) in sorted(wire.written(ctx).items()):
        if kind not in VERBS:
            raise Unsupported('command kind %s' % kind)
        w = wire.worker(ctx, env, kind)
        for e in sorted(env.edges, key=repr):
            if e[0] != ('start',):
                continue
            lead = b''
            for x in e[2]:
                if x[0] != 'lit':
                    break
                lead += x[1]
            v = VERBS[kind]
            if len(lead) < len(v) and any(x[0] != 'lit' for x in e[2]):
                raise Unsupported('%s does not start with a fixed text' % kind)
            ctx.ob('a command is written with its own verb', lead[:len(v)].upper() == v, w.span, '%s is written as %s' % (kind, wire.show_word(e[2])), [w.path])
    note(ctx, ps, **{k: len(L) for k, L, _ in brs})

@reg('C16')
@guarded
def c16(ctx):
    ps = Parsers(ctx)
    g = ps.g
    def go():
        name, L, lab = commands(ctx, ps)
        r = Ref(g)
        ls = sorted(set(lab.values()))
        return name, {l: peg.texts(L, l) for l in ls}, r.nl, g.many_of(g.cls(PRINT)), g.many_of(g.cls(ALNUM | {45, 46}))
    name, T, nl, pr, ldh = g.run(go)
    panics(ctx, ps, name)
    for l, d in T.items():
        kind = l.split('.')[0].split(':')[0]
        p = verb_parser(ps, name, kind) if kind in VERBS else name
        w = fa.shortest(fa.inter(d, nl))
        ctx.ob('no argument contains a line break', w is None, ps.where(p), '%s can be %s' % (l, g.show(w) if w else ''), [name, p])
        free = kind in ('VrfyCommand', 'ExpnCommand', 'HelpCommand', 'NoopCommand')
        if not free:
            w = fa.subset(d, pr)
            ctx.ob('addresses, hosts and parameters are printable', w is None, ps.where(p), '%s can be %s' % (l, g.show(w) if w else ''), [name, p])
        host = l.endswith('Domain.SmtpString') or l in ('EhloCommand.SmtpString', 'HeloCommand.SmtpString')
        if host or l.endswith('[].0'):
            w = fa.subset(d, ldh)
            ctx.ob('host and parameter names are letters, digits, dots and hyphens', w is None, ps.where(p),
                   '%s can be %s' % (l, g.show(w) if w else ''), [name, p])
    need = [n for n in VERBS if not any(l.split('.')[0] == n for l in T) and n not in ('DataCommand', 'QuitCommand', 'RsetCommand')]
    if need:
        raise Unsupported('arguments of %s not found' % ', '.join(need))
    note(ctx, ps, **{l: len(d) for l, d in T.items()})
    ctx.note('arguments', sorted(T))
