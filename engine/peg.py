"""Meaning of nom 3.2 parser definitions as regular languages.

A parser e denotes, over ALL byte strings w (split into byte classes):
   S(e)  words  consumed END rest, with markers in `consumed` around each captured text and at each
         alternative taken -- the inputs on which e returns Done, what it consumed and what it captured
   E(e)  inputs on which it returns Error
   I(e)  inputs on which it returns Incomplete
and a symbolic value over the captured texts.  Nothing is run: the three languages are computed from the
definitions, for every input at once; comparison with a reference is automata inclusion."""
import fa
from fa import D, END, NONE, EPS
import rsyn
from rsyn import Unsupported, is_op, is_id, is_grp, split, split_commas, commas_expr

class Refine(Exception):
    def __init__(self, sets):
        self.sets = sets
class Infeasible(Exception):
    pass
class Return(Exception):
    def __init__(self, v):
        self.v = v
class Fail(Exception):
    """`?` on an error"""

class Res:
    __slots__ = ('S', 'E', 'I', 't')
    def __init__(self, S, E, I, t):
        self.S, self.E, self.I, self.t = S, E, I, t

TEXT_IDENT = {'promote', 'demote', 'into', 'clone', 'to_vec', 'to_owned', 'as_ref', 'as_bytes', 'as_str', 'deref', 'borrow', 'as_slice', 'to_string'}
DIGITS = set(range(48, 58))
ALPHA = set(range(65, 91)) | set(range(97, 123))
HEX = DIGITS | set(range(65, 71)) | set(range(97, 103))

class Grammar:
    def __init__(self, crate, sets=()):
        self.c = crate
        self.classes = [frozenset(range(256))]
        for s in sets:
            self.refine(s)
        self.reset()
    def reset(self):
        self.k = len(self.classes)
        self.of = {}
        for i, c in enumerate(self.classes):
            for b in c:
                self.of[b] = i
        self.ids = 0
        self.memo = {}
        self.busy = set()
        self.panics = []
        self.used = {}
        self.calls = 0
        self.sstar = fa.sigma_star(self.k)
        self.langs = {}
    def refine(self, s):
        s = frozenset(s)
        out = []
        for c in self.classes:
            a, b = c & s, c - s
            if a: out.append(a)
            if b: out.append(b)
        self.classes = out
    def run(self, f):
        """evaluate f, refining the byte classes until everything it distinguishes is a union of classes"""
        while True:
            try:
                return f()
            except Refine as e:
                n = len(self.classes)
                for s in e.sets:
                    self.refine(s)
                if len(self.classes) == n:
                    raise Unsupported('byte classes')
                self.reset()
    def cls(self, bs):
        bs = frozenset(bs)
        r = frozenset(self.of[b] for b in bs)
        if sum(len(self.classes[c]) for c in r) != len(bs):
            raise Refine([bs])
        return r
    def fresh(self):
        self.ids += 1
        return self.ids
    def show(self, w):
        """a word for people"""
        s = ''
        for x in w:
            if fa.is_byte(x):
                c = self.classes[x]
                pref = [b for b in c if 97 <= b <= 122] or [b for b in c if 48 <= b <= 57] or [b for b in c if 33 <= b < 127] or sorted(c)
                b = min(pref)
                s += chr(b) if 32 <= b < 127 else {13: '\\r', 10: '\\n', 9: '\\t'}.get(b, '\\x%02x' % b)
            elif x == END:
                s += '|'
            elif x[0] == '(':
                s += '{%s:' % (x[1],)
            elif x[0] == ')':
                s += '}'
            else:
                s += '<%s>' % ','.join(str(y) for y in x[1:] if y != '')
        return s
    # ---------------------------------------------------------- languages
    def word(self, bs, fold=False):
        sets = []
        for b in bs:
            s = {b}
            if fold and b in ALPHA:
                s = {b & ~32, b | 32}
            sets.append(self.cls(s))
        return fa.lit(sets)
    def setl(self, bs):
        return fa.lit([self.cls(bs)])
    def comp(self, d):
        return fa.complement(d, self.k)
    def anylen(self, n):
        return fa.lit([range(self.k)] * n)
    def rest_not(self, cs):
        """the empty word, or a word whose first byte is not in classes cs"""
        tr = [{c: 1 for c in range(self.k) if c not in cs}, {c: 1 for c in range(self.k)}]
        return fa.trim(D(tr, [True, True]))
    def first_not(self, cs):
        tr = [{c: 1 for c in range(self.k) if c not in cs}, {c: 1 for c in range(self.k)}]
        return fa.trim(D(tr, [False, True]))
    def many_of(self, cs, least=0):
        if least == 0:
            return D([{c: 0 for c in cs}], [True])
        if not cs:
            return NONE
        return D([{c: 1 for c in cs}, {c: 1 for c in cs}], [False, True])
    def lang(self, key, f):
        if key not in self.langs:
            self.langs[key] = f()
        return self.langs[key]
    def occurs(self, p):
        """(words containing pattern p, words in which p occurs exactly once, at the end)"""
        sets = [self.cls({b}) for b in p]
        pat = fa.lit(sets)
        anyp = fa.concat(self.sstar, pat)
        cont = fa.concat(anyp, self.sstar)
        early = fa.concat(anyp, self.anylen(1), self.sstar)
        return cont, fa.inter(anyp, self.comp(early)), sets
    def utf8(self):
        def f():
            r = lambda a, b: range(a, b + 1)
            seqs = [[r(0, 0x7f)], [r(0xc2, 0xdf), r(0x80, 0xbf)], [r(0xe0, 0xe0), r(0xa0, 0xbf), r(0x80, 0xbf)],
                    [r(0xe1, 0xec), r(0x80, 0xbf), r(0x80, 0xbf)], [r(0xed, 0xed), r(0x80, 0x9f), r(0x80, 0xbf)],
                    [r(0xee, 0xef), r(0x80, 0xbf), r(0x80, 0xbf)], [r(0xf0, 0xf0), r(0x90, 0xbf), r(0x80, 0xbf), r(0x80, 0xbf)],
                    [r(0xf1, 0xf3), r(0x80, 0xbf), r(0x80, 0xbf), r(0x80, 0xbf)],
                    [r(0xf4, 0xf4), r(0x80, 0x8f), r(0x80, 0xbf), r(0x80, 0xbf)]]
            need = [frozenset(x) for s in seqs for x in s]
            bad = []
            for x in need:
                try: self.cls(x)
                except Refine: bad.append(x)
            if bad:
                raise Refine(bad)
            return fa.star_(fa.union(*[fa.lit([self.cls(x) for x in s]) for s in seqs]))
        return self.lang('utf8', f)
    def ipv4(self):
        def f():
            d = self.word
            dig = lambda a, b: self.setl(range(48 + a, 48 + b + 1))
            o = fa.union(dig(0, 9), fa.concat(dig(1, 9), dig(0, 9)), fa.concat(d(b'1'), dig(0, 9), dig(0, 9)),
                         fa.concat(d(b'2'), dig(0, 4), dig(0, 9)), fa.concat(d(b'25'), dig(0, 5)))
            dot = d(b'.')
            return fa.concat(o, dot, o, dot, o, dot, o)
        return self.lang('ipv4', f)
    def ipv6(self, head=7, rfc=False):
        """std::net::Ipv6Addr::from_str; rfc=True: RFC 5321 section 4.1.3 (without leading zeros in the IPv4 part)"""
        def f():
            h = self.setl(HEX)
            g = fa.union(h, fa.concat(h, h), fa.concat(h, h, h), fa.concat(h, h, h, h))
            c = self.word(b':')
            v4 = self.ipv4()
            def groups(n):
                return EPS if n == 0 else fa.concat(*([g] + [c, g] * (n - 1)))
            def tail(n, v4max):
                r = [groups(n)]
                if n >= 2 and n - 2 <= v4max:
                    r.append(fa.concat(groups(n - 2), c, v4) if n > 2 else v4)
                return fa.union(*r)
            out = [groups(8), fa.concat(groups(6), c, v4)]
            cc = self.word(b'::')
            top = 6 if rfc else 7
            for a in range(top + 1):
                if rfc:
                    ts = [groups(t) for t in range(top - a + 1)]
                    ts += [fa.concat(groups(t), c, v4) if t else v4 for t in range(4 - a + 1)]
                else:
                    ts = [tail(t, 9) for t in range(top - a + 1)]
                out.append(fa.concat(groups(a), cc, fa.union(*ts)))
            return fa.union(*out)
        return self.lang(('ipv6', rfc), f)
    def number_below(self, n, plus=True):
        """decimal texts (leading zeros, optional '+') of value < n"""
        def f():
            if n <= 0:
                return NONE
            z = fa.star_(self.word(b'0'))
            if plus:
                z = fa.concat(fa.union(EPS, self.word(b'+')), z)
            m = str(n - 1)
            out = [fa.lit([self.cls(DIGITS)] * l) for l in range(1, len(m))]
            for i in range(len(m)):
                # first i digits equal, then a smaller one, then any
                lo = range(48, ord(m[i]))
                pre = [self.cls({ord(ch)}) for ch in m[:i]]
                if len(lo):
                    out.append(fa.lit(pre + [self.cls(lo)] + [self.cls(DIGITS)] * (len(m) - i - 1)))
            out.append(self.word(m.encode()))
            return fa.concat(z, fa.union(*out))
        return self.lang(('num', n, plus), f)
    # ---------------------------------------------------------- combinators
    def cap(self, lang, after):
        """S for a leaf: capture exactly lang, then `after` as rest"""
        i = self.fresh()
        return fa.concat(fa.mark(('(', i)), lang, fa.mark((')', i)), fa.mark(END), after), i
    def drop(self, r):
        return Res(fa.unmark(r.S), r.E, r.I, ('unit',))
    def seq2(self, A, B):
        """returns S, E, I of A then B (values are kept by the caller)"""
        S = self.run_on(A.S, B.S, True)
        E = fa.union(A.E, self.run_on(A.S, B.E, False))
        I = fa.union(A.I, self.run_on(A.S, B.I, False))
        return S, E, I
    def run_on(self, SA, L, keep):
        """words u r: u END r' in SA, and r in L where r' is r without markers and END.  keep: with markers"""
        if SA.empty() or L.empty():
            return NONE
        ta, tl = SA.tr, L.tr
        full = self.full_states(SA)
        def nxt(q):
            if q[0] == 0:
                out = []
                for s, t in ta[q[1]].items():
                    if s == END:
                        out.append((None, (1, -1 if t in full else t, 0)))
                    elif keep or fa.is_byte(s):
                        out.append((s, (0, t)))
                    else:
                        out.append((None, (0, t)))
                return out
            _, a, b = q
            out = []
            for s, t in tl[b].items():
                if fa.is_byte(s):
                    if a == -1:
                        out.append((s, (1, -1, t)))
                    else:
                        u = ta[a].get(s)
                        if u is not None:
                            out.append((s, (1, -1 if u in full else u, t)))
                else:
                    out.append((s if keep else None, (1, a, t)))
            return out
        return fa.build([(0, 0)], nxt, lambda q: q[0] == 1 and L.acc[q[2]] and (q[1] == -1 or SA.acc[q[1]]))
    def full_states(self, d):
        r = set()
        for i, row in enumerate(d.tr):
            if d.acc[i] and len(row) == self.k and all(t == i for t in row.values()) and all(fa.is_byte(s) for s in row):
                r.add(i)
        return r
    def nonzero(self, S):
        """(words of S that consume at least one byte, rests for which it consumes nothing)"""
        def nxt(q):
            s, z = q
            out = []
            for c, t in S.tr[s].items():
                if c == END:
                    if z == 1: out.append((c, (t, 2)))
                elif fa.is_byte(c):
                    out.append((c, (t, 2 if z == 2 else 1)))
                else:
                    out.append((c, (t, z)))
            return out
        nz = fa.build([(0, 0)], nxt, lambda q: S.acc[q[0]])
        def nxt0(q):
            s, z = q
            out = []
            for c, t in S.tr[s].items():
                if c == END:
                    if z == 0: out.append((None, (t, 1)))
                elif fa.is_byte(c):
                    if z == 1: out.append((c, (t, 1)))
                else:
                    out.append((None, (t, z)))
            return out
        zero = fa.build([(0, 0)], nxt0, lambda q: q[1] == 1 and S.acc[q[0]])
        return nz, zero
    def star(self, P, tail, keep=True):
        """P (consuming) any number of times, then tail; every obligation of an iteration on what follows is kept"""
        if P.empty():
            return tail
        tp, tl = P.tr, tail.tr
        full = self.full_states(P)
        # state: (obligations, which automaton, state)
        def norm(obs):
            return frozenset(o for o in obs if o not in full)
        def nxt(q):
            obs, w, s = q
            out = []
            row = tp[s] if w == 0 else tl[s]
            if w == 0 and s == 0 or w == 2:
                pass
            for c, t in row.items():
                if fa.is_byte(c):
                    no = []
                    ok = True
                    for o in obs:
                        u = tp[o].get(c)
                        if u is None:
                            ok = False; break
                        no.append(u)
                    if ok:
                        out.append((c, (norm(no), w, t)))
                elif c == END and w == 0:
                    for nw in (0, 1):
                        out.append((None, (norm(set(obs) | {t}), nw, 0)))
                else:
                    out.append((c if keep else None, (obs, w, t)))
            return out
        return fa.build([(frozenset(), 0, 0), (frozenset(), 1, 0)], nxt,
                        lambda q: q[1] == 1 and tail.acc[q[2]] and all(P.acc[o] for o in q[0]))
    def at_end(self, L):
        """as S without consumption: END rest, rest in L"""
        return fa.concat(fa.mark(END), L)
    # ---------------------------------------------------------- parsers
    def parser(self, name, mod=None):
        """the meaning of a named parser, with fresh captures"""
        p = self.find(name, mod)
        if p is None:
            raise Unsupported('no parser %s' % name)
        key = (p.mod, p.name)
        if key in self.busy:
            raise Unsupported('recursive parser %s' % name)
        if key not in self.memo:
            self.busy.add(key)
            try:
                if isinstance(p, rsyn.Parser):
                    r = self.expr(p.body, p.mod)
                else:
                    r = self.fn_parser(p)
            finally:
                self.busy.discard(key)
            self.memo[key] = self.gc(r)
            self.used[key] = p
        r = self.memo[key]
        return self.clone(r)
    def gc(self, r):
        ids = set()
        term_ids(r.t, ids)
        S = fa.rename(r.S, lambda s: s if type(s) is int or s[1] in ids else None)
        return Res(S, r.E, r.I, r.t)
    def clone(self, r):
        ids = set()
        term_ids(r.t, ids)
        if not ids:
            return r
        m = {i: self.fresh() for i in ids}
        S = D([{(s if type(s) is int else (s[0], m[s[1]]) + s[2:]): t for s, t in row.items()} for row in r.S.tr], r.S.acc)
        return Res(S, r.E, r.I, term_map(r.t, m))
    def find(self, name, mod):
        c = [p for p in self.c.parsers if p.name == name]
        c += [f for f in self.c.fns if f.name == name and f.owner is None and f.ret and 'IResult' in rsyn.text(f.ret)]
        if len(c) > 1:
            same = [p for p in c if p.mod == mod]
            if len(same) == 1:
                return same[0]
            imp = self.c.uses.get(mod, {}).get(name)
            if imp:
                c = [p for p in c if p.mod.split('::')[-1] == (imp[-2] if len(imp) > 1 else '')]
        if len(c) > 1:
            raise Unsupported('several parsers named %s' % name)
        return c[0] if c else None
    def fn_parser(self, f):
        """fn p(i: ByteSlice) -> IResult<..> { some_macro!(i, ..) }"""
        if len(f.params) == 1:
            b = f.body.sub
            nm = f.params[0][0][-1].v
            if len(b) == 3 and is_id(b[0]) and is_op(b[1], '!') and is_grp(b[2]):
                a = b[2].sub
                if len(a) >= 2 and is_id(a[0], nm) and is_op(a[1], ','):
                    return self.expr([b[0], b[1], rsyn.Tok('grp', '(', b[2].line, a[2:])], f.mod)
            if len(b) == 2 and is_id(b[0]) and is_grp(b[1], '(') and len(b[1].sub) == 1 and is_id(b[1].sub[0], nm):
                return self.parser(b[0].v, f.mod)
        raise Unsupported('hand-written parser %s' % f.name)
    def bytes_arg(self, ts, mod):
        """a constant string / byte string / character set"""
        e = rsyn.Ex(ts)
        a = e.expr()
        e.done()
        return self.const(a, mod)
    def const(self, a, mod, depth=0):
        if depth > 20:
            raise Unsupported('constant')
        if a[0] == 'str':
            return a[1]
        if a[0] == 'chr':
            return chr(a[1]).encode()
        if a[0] == 'int':
            return a[1]
        if a[0] == 'un' and a[1] in '&*':
            return self.const(a[2], mod, depth + 1)
        if a[0] == 'meth' and a[2] in ('as_bytes', 'as_ref') or a[0] == 'index' and a[2][0] == 'range' and a[2][1] is None and a[2][2] is None:
            return self.const(a[1], mod, depth + 1)
        if a[0] == 'array':
            return bytes(self.const(x, mod, depth + 1) for x in a[1])
        if a[0] == 'cast':
            return self.const(a[1], mod, depth + 1)
        if a[0] == 'macro' and a[1] in ('concat',):
            out = b''
            for p in commas_expr(a[2]):
                e = rsyn.Ex(p); x = e.expr(); e.done()
                v = self.const(x, mod, depth + 1)
                out += v if isinstance(v, bytes) else str(v).encode()
            return out
        if a[0] == 'macro' and a[1] in self.c.strmacros and not a[2]:
            e = rsyn.Ex(self.c.strmacros[a[1]]); x = e.expr(); e.done()
            return self.const(x, mod, depth + 1)
        if a[0] == 'path':
            c = [k for k in self.c.consts if k[1] == a[1][-1] and (len(a[1]) == 1 or k[0] in (a[1][-2], None))]
            if len(c) > 1:
                c = [k for k in c if k[2] == mod] or c
            if len(c) == 1:
                e = rsyn.Ex(c[0][3]); x = e.expr(); e.done()
                return self.const(x, c[0][2], depth + 1)
        if a[0] == 'bin' and a[1] in ('+', '-', '*'):
            x, y = self.const(a[2], mod, depth + 1), self.const(a[3], mod, depth + 1)
            if isinstance(x, int) and isinstance(y, int):
                return {'+': x + y, '-': x - y, '*': x * y}[a[1]]
        raise Unsupported('constant %r' % (a,))
    def charset(self, b):
        if isinstance(b, int):
            return {b}
        return set(b)
    def expr(self, ts, mod):
        """a parser expression: name, path or macro!(..)"""
        self.calls += 1
        if not ts:
            raise Unsupported('empty parser')
        if is_id(ts[0]) and len(ts) == 3 and is_op(ts[1], '!') and is_grp(ts[2]):
            f = getattr(self, 'm_' + ts[0].v, None)
            if f is None:
                raise Unsupported('parser macro %s! (line %d)' % (ts[0].v, ts[0].line))
            return f(ts[2].sub, mod)
        if all(is_id(t) or is_op(t, '::') for t in ts):
            name = ts[-1].v
            p = self.find(name, mod)
            if p is not None:
                return self.parser(name, mod)
            f = getattr(self, 'f_' + name, None)
            if f is not None:
                return f()
        raise Unsupported('parser expression near line %d: %s' % (ts[0].line, rsyn.text(ts)[:60]))
    # leaves
    def leaf(self, lang, after, E, I):
        S, i = self.cap(lang, after)
        return Res(S, E, I, ('txt', i))
    def tag(self, b, fold):
        w = self.word(b, fold)
        n = len(b)
        pre = fa.union(*[self.word(b[:i], fold) for i in range(n)]) if n else NONE
        E = self.comp(fa.union(pre, fa.concat(w, self.sstar)))
        return self.leaf(w, self.sstar, E, pre)
    def m_tag(self, ts, mod):
        return self.tag(self.bytes_arg(ts, mod), False)
    def m_tag_no_case(self, ts, mod):
        return self.tag(self.bytes_arg(ts, mod), True)
    def m_char(self, ts, mod):
        b = self.bytes_arg(ts, mod)
        cs = self.cls(self.charset(b))
        return self.leaf(fa.lit([cs]), self.sstar, self.first_not(cs), EPS)
    def f_crlf(self):
        return self.tag(b'\r\n', False)
    def span_of(self, cs, least):
        """longest run of classes cs"""
        none_left = self.rest_not(cs)
        if least == 0:
            return self.leaf(self.many_of(cs), none_left, NONE, NONE)
        r = self.leaf(self.many_of(cs, 1), none_left, self.first_not(cs), NONE)
        return r
    def m_is_a(self, ts, mod):
        cs = self.cls(self.charset(self.bytes_arg(ts, mod)))
        return self.isa(cs)
    def isa(self, cs):
        r = self.span_of(cs, 1)
        i = r.t[1]
        # on empty input is_a! succeeds with nothing
        S = fa.union(r.S, fa.concat(fa.mark(('(', i)), fa.mark((')', i)), fa.mark(END)))
        return Res(S, r.E, NONE, r.t)
    def m_is_not(self, ts, mod):
        cs = self.cls(self.charset(self.bytes_arg(ts, mod)))
        return self.isa(frozenset(range(self.k)) - cs)
    def bytepred(self, ts, mod):
        """the set of bytes a predicate accepts"""
        if len(ts) == 3 and is_id(ts[0], 'call') and is_op(ts[1], '!'):
            ts = ts[2].sub
        e = rsyn.Ex(ts); a = e.expr(); e.done()
        out = set()
        for b in range(256):
            ev = Eval(self, mod, None)
            if ev.truth(ev.apply(a, [('int', b)], {})):
                out.add(b)
        return out
    def m_take_while(self, ts, mod):
        return self.span_of(self.cls(self.bytepred(ts, mod)), 0)
    def m_take_while1(self, ts, mod):
        r = self.span_of(self.cls(self.bytepred(ts, mod)), 1)
        r.I = EPS
        return r
    def m_take_till(self, ts, mod):
        return self.span_of(self.cls(set(range(256)) - self.bytepred(ts, mod)), 0)
    def m_one_of(self, ts, mod):
        cs = self.cls(self.charset(self.bytes_arg(ts, mod)))
        r = self.leaf(fa.lit([cs]), self.sstar, self.first_not(cs), EPS)
        r.t = ('chr', r.t[1])
        return r
    def m_none_of(self, ts, mod):
        cs = frozenset(range(self.k)) - self.cls(self.charset(self.bytes_arg(ts, mod)))
        r = self.leaf(fa.lit([cs]), self.sstar, self.first_not(cs), EPS)
        r.t = ('chr', r.t[1])
        return r
    def m_take(self, ts, mod):
        n = self.bytes_arg(ts, mod)
        if not isinstance(n, int) or n > 600:
            raise Unsupported('take!')
        short = fa.union(*[self.anylen(i) for i in range(n)]) if n else NONE
        return self.leaf(self.anylen(n), self.sstar, NONE, short)
    def until(self, b, consume):
        if not b:
            raise Unsupported('empty pattern')
        cont, first, sets = self.occurs(b)
        n = len(b)
        i = self.fresh()
        full = first.tr
        def nxt(q):
            if q[0] == 'o':
                return [(('(', i), (0, 0))]
            if q[0] == 0:
                out = [(c, (0, t)) for c, t in full[q[1]].items()]
                out.append(((')', i), (('e', 0) if not consume else ('p', 0), q[1])))
                return out
            if q[0] == 'x':
                return [(c, q) for c in range(self.k)]
            ph, f = q
            if ph == ('e', 0):
                return [(END, (('p', 0), f))]
            if ph == ('e', 1):
                return [(END, ('x',))]
            j = ph[1]
            if j == n:
                if not first.acc[f]:
                    return []
                return [(None, (('e', 1), f))] if consume else [(None, ('x',))]
            return [(c, ((('p', j + 1)), full[f][c])) for c in sets[j] if c in full[f]]
        S = fa.build([('o',)], nxt, lambda q: q[0] == 'x')
        short = fa.union(*[self.anylen(x) for x in range(n)])
        E = self.comp(fa.union(short, cont))
        return Res(S, E, short, ('txt', i))
    def m_take_until(self, ts, mod):
        return self.until(self.bytes_arg(ts, mod), False)
    def m_take_until_and_consume(self, ts, mod):
        return self.until(self.bytes_arg(ts, mod), True)
    def m_eat_separator(self, ts, mod):
        return self.span_of(self.cls(self.charset(self.bytes_arg(ts, mod))), 0)
    # structure
    def args(self, ts, n=None):
        a = commas_expr(ts)
        if n is not None and len(a) != n:
            raise Unsupported('arguments of a parser macro')
        return a
    def m_call(self, ts, mod):
        a = self.args(ts)
        if len(a) != 1:
            raise Unsupported('call! with arguments')
        return self.expr(a[0], mod)
    def m_named(self, ts, mod):
        raise Unsupported('named! inside a parser')
    def m_do_parse(self, ts, mod, wrap=None):
        parts = split(ts, '>>')
        last = parts.pop()
        if len(last) != 1 or not is_grp(last[0], '('):
            raise Unsupported('do_parse! without result (line %d)' % (ts[0].line if ts else 0))
        steps = []
        env = {}
        for p in parts:
            name = None
            if len(p) > 2 and is_id(p[0]) and is_op(p[1], ':'):
                name = p[0].v
                p = p[2:]
            r = self.expr(p, mod) if wrap is None else self.sep_expr(wrap, p, mod)
            if name is None or name.startswith('_') and name == '_':
                r = self.drop(r)
            else:
                env[name] = r.t
            steps.append(r)
        vals = [rsyn.Ex(p) for p in commas_expr(last[0].sub)]
        es = []
        for e in vals:
            es.append(e.expr()); e.done()
        if len(es) == 1 and not is_op(last[0].sub[-1], ','):
            a = es[0]
        else:
            a = ('tuple', es) if es else ('unit',)
        r = self.chain(steps)
        return self.mapped(r, lambda ev: ev.ev(a, dict(env)), mod)
    def chain(self, rs):
        """right-nested sequence"""
        if not rs:
            return Res(self.at_end(self.sstar), NONE, NONE, ('unit',))
        acc = rs[-1]
        for r in reversed(rs[:-1]):
            S, E, I = self.seq2(r, acc)
            acc = Res(S, E, I, ('unit',))
        return Res(acc.S, acc.E, acc.I, ('unit',))
    def several(self, ps, mod, pick):
        rs = [self.expr(p, mod) for p in ps]
        out = []
        for i, r in enumerate(rs):
            out.append(r if i in pick else self.drop(r))
        r = self.chain(out)
        r.t = rs[pick[0]].t if len(pick) == 1 else ('tup', [rs[i].t for i in pick])
        return r
    def m_preceded(self, ts, mod):
        return self.several(self.args(ts, 2), mod, [1])
    def m_terminated(self, ts, mod):
        return self.several(self.args(ts, 2), mod, [0])
    def m_delimited(self, ts, mod):
        return self.several(self.args(ts, 3), mod, [1])
    def m_pair(self, ts, mod):
        return self.several(self.args(ts, 2), mod, [0, 1])
    def m_separated_pair(self, ts, mod):
        return self.several(self.args(ts, 3), mod, [0, 2])
    def m_tuple(self, ts, mod):
        a = self.args(ts)
        return self.several(a, mod, list(range(len(a)))) if len(a) > 1 else self.several(a, mod, [0])
    def alternatives(self, rs):
        S, E, I = [], None, []
        b = self.fresh()
        terms = {}
        for i, r in enumerate(rs):
            s, e, n = r.S, r.E, r.I
            if E is not None:
                s = fa.filt(s, E)
                n = fa.inter(n, E)
                E = fa.inter(E, e)
            else:
                E = e
            S.append(s)
            I.append(n)
            terms[i] = r.t
        # one value shape for all branches?
        m = [{} for _ in rs]
        live = [i for i in range(len(rs)) if not S[i].empty()]
        if live and all(unify(terms[live[0]], terms[i], m[i]) for i in live[1:]):
            S = [S[i] if not m[i] else fa.rename(S[i], lambda s, mm=m[i]: s if type(s) is int else (s[0], mm.get(s[1], s[1])) + s[2:])
                 for i in live]
            return Res(fa.union(*S), E, fa.union(*I), terms[live[0]])
        Sx = [fa.concat(fa.mark(('b', b, i)), S[i]) for i in live]
        return Res(fa.union(*Sx), E, fa.union(*I), ('alt', b, {i: terms[i] for i in live}))
    def m_alt(self, ts, mod, complete=False, wrap=None):
        rs = []
        for p in split(ts, '|'):
            f = None
            ar = next((k for k, t in enumerate(p) if is_op(t, '=>')), None)
            if ar is not None:
                f = p[ar + 1]
                p = p[:ar]
            r = self.expr(p, mod) if wrap is None else self.sep_expr(wrap, p, mod)
            if complete:
                r = self.completed(r)
            if f is not None:
                e = rsyn.Ex(f.sub); a = e.expr(); e.done()
                r = self.mapped(r, lambda ev, a=a, r=r: ev.apply(a, [r.t], {}), mod)
            rs.append(r)
        return self.alternatives(rs)
    def m_alt_complete(self, ts, mod):
        return self.m_alt(ts, mod, True)
    def completed(self, r):
        return Res(r.S, fa.union(r.E, r.I), NONE, r.t)
    def m_complete(self, ts, mod):
        return self.completed(self.expr(ts, mod))
    def optional(self, r):
        b = self.fresh()
        S = fa.union(fa.concat(fa.mark(('b', b, 1)), r.S), fa.concat(fa.mark(('b', b, 0)), self.at_end(r.E)))
        return Res(S, NONE, r.I, ('alt', b, {1: ('some', r.t), 0: ('none',)}))
    def m_opt(self, ts, mod):
        return self.optional(self.expr(ts, mod))
    def m_recognize(self, ts, mod):
        r = self.expr(ts, mod)
        i = self.fresh()
        S = fa.unmark(r.S)
        def nxt(q):
            out = []
            for s, t in (S.tr[q[1]].items() if q[0] != 'o' and q[0] != 'c' else ()):
                if s == END:
                    out.append(((')', i), ('c', t)))
                else:
                    out.append((s, (q[0], t)))
            if q[0] == 'o':
                out.append((('(', i), (0, 0)))
            if q[0] == 'c':
                out.append((END, (1, q[1])))
            return out
        return Res(fa.build([('o',)], nxt, lambda q: q[0] == 1 and S.acc[q[1]]), r.E, r.I, ('txt', i))
    def m_map(self, ts, mod):
        a = self.args(ts, 2)
        r = self.expr(a[0], mod)
        f = self.fexpr(a[1])
        return self.mapped(r, lambda ev: ev.apply(f, [r.t], {}), mod)
    def fexpr(self, ts):
        if len(ts) == 3 and is_id(ts[0], 'call') and is_op(ts[1], '!'):
            ts = ts[2].sub
        e = rsyn.Ex(ts); a = e.expr(); e.done()
        return a
    def m_map_res(self, ts, mod):
        a = self.args(ts, 2)
        r = self.expr(a[0], mod)
        f = self.fexpr(a[1])
        return self.mapped(r, lambda ev: ev.apply(f, [r.t], {}), mod, 'ok')
    def m_map_opt(self, ts, mod):
        a = self.args(ts, 2)
        r = self.expr(a[0], mod)
        f = self.fexpr(a[1])
        return self.mapped(r, lambda ev: ev.apply(f, [r.t], {}), mod, 'some')
    def m_verify(self, ts, mod):
        a = self.args(ts, 2)
        r = self.expr(a[0], mod)
        f = self.fexpr(a[1])
        def g(ev):
            return ('ok', r.t) if ev.truth(ev.apply(f, [r.t], {})) else ('err',)
        return self.mapped(r, g, mod, 'ok')
    def m_value(self, ts, mod):
        a = self.args(ts)
        e = rsyn.Ex(a[0]); x = e.expr(); e.done()
        r = self.drop(self.expr(a[1], mod)) if len(a) == 2 else self.chain([])
        return self.mapped(r, lambda ev: ev.ev(x, {}), mod)
    def mapped(self, r, f, mod, mode=None):
        """apply f to the value on every feasible combination of what it inspects"""
        outs = []
        bad = []
        todo = [[]]
        while todo:
            ch = todo.pop()
            ev = Eval(self, mod, r.S, ch)
            try:
                v = f(ev)
            except Infeasible:
                v = None
            except Return as e:
                v = e.v
            for i in range(len(ch), len(ev.made)):
                todo.append(ev.made[:i] + [not ev.made[i]])
            if len(outs) + len(bad) > 60:
                raise Unsupported('too many cases')
            if v is None or ev.S.empty():
                continue
            if ev.panicked:
                self.panics.append((ev.panicked, ev.S))
                continue
            if mode:
                if v == ('err',) or v == ('none',):
                    bad.append(fa.erase(ev.S))
                    continue
                if v[0] != mode:
                    raise Unsupported('result of a fallible function: %r' % (v,))
                v = v[1]
            outs.append((ev.S, v))
        E = fa.union(r.E, *bad)
        if not outs:
            return Res(NONE, E, r.I, ('unit',))
        if all(v == outs[0][1] for _, v in outs):
            return Res(outs[0][0] if len(outs) == 1 else fa.union(*[s for s, _ in outs]), E, r.I, outs[0][1])
        b = self.fresh()
        S = fa.union(*[fa.concat(fa.mark(('b', b, i)), s) for i, (s, _) in enumerate(outs)])
        return Res(S, E, r.I, ('alt', b, {i: v for i, (_, v) in enumerate(outs)}))
    # repetition
    def repeat(self, P, zero_is_error, least=0):
        """many0! / many1!"""
        nz, zero = self.nonzero(P.S)
        zero = fa.inter(zero, self.first_not(()))        # on empty input the loop has ended
        end = fa.union(P.E, EPS)
        E, err_end = NONE, NONE
        if zero_is_error:
            err_end = zero
        else:
            end = fa.union(end, zero)
        I_tail = fa.inter(P.I, self.first_not(()))
        S = self.star(nz, self.at_end(end))
        E = fa.erase(self.star(nz, err_end)) if not err_end.empty() else NONE
        I = fa.erase(self.star(nz, I_tail)) if not I_tail.empty() else NONE
        return S, E, I
    def m_many0(self, ts, mod, wrap=None):
        P = self.expr(ts, mod) if wrap is None else self.sep_expr(wrap, ts, mod)
        S, E, I = self.repeat(P, True)
        return Res(S, E, I, ('list', P.t))
    def m_many1(self, ts, mod):
        P = self.expr(ts, mod)
        nz, zero = self.nonzero(P.S)
        if not zero.empty():
            raise Unsupported('many1! of an empty parser')
        S0, E0, I0 = self.repeat(P, False)
        S, E, I = self.seq2(P, Res(S0, E0, I0, ('unit',)))
        return Res(S, E, I, ('list', P.t))
    def listed(self, sep, el, nonempty):
        sep = self.drop(sep)
        snz, sz = self.nonzero(sep.S)
        enz, ez = self.nonzero(el.S)
        pS = self.run_on(snz, enz, True)
        # end of the list: no separator, or a separator without an element
        end = fa.union(sep.E, sz, self.run_on(snz, fa.union(el.E, ez), False))
        inc = fa.union(sep.I, self.run_on(snz, el.I, False))
        loopS = self.star(pS, self.at_end(end))
        loopI = fa.erase(self.star(pS, inc)) if not inc.empty() else NONE
        first = Res(enz, fa.union(el.E, ez), el.I, el.t)
        S = self.run_on(first.S, loopS, True)
        I = fa.union(first.I, self.run_on(first.S, loopI, False))
        if nonempty:
            E = first.E
        else:
            S = fa.union(S, self.at_end(el.E))
            E = ez
        return Res(S, E, I, ('list', el.t))
    def m_separated_list(self, ts, mod, nonempty=False, complete=False):
        a = self.args(ts, 2)
        sep, el = self.expr(a[0], mod), self.expr(a[1], mod)
        if complete:
            sep, el = self.completed(sep), self.completed(el)
        return self.listed(sep, el, nonempty)
    def m_separated_list_complete(self, ts, mod):
        return self.m_separated_list(ts, mod, False, True)
    def m_separated_nonempty_list(self, ts, mod):
        return self.m_separated_list(ts, mod, True, False)
    def m_separated_nonempty_list_complete(self, ts, mod):
        return self.m_separated_list(ts, mod, True, True)
    # whitespace combinators
    def wrapped(self, sep, r):
        s1, s2 = self.drop(self.expr(sep, '')), self.drop(self.expr(sep, ''))
        out = self.chain([s1, r, s2])
        out.t = r.t
        return out
    def m_sep(self, ts, mod):
        a = self.args(ts)
        # the body may contain commas only inside its own delimiters
        if len(a) != 2:
            raise Unsupported('sep!')
        return self.sep_expr(a[0], a[1], mod)
    def sep_expr(self, sep, ts, mod):
        if len(ts) == 3 and is_id(ts[0]) and is_op(ts[1], '!'):
            n = ts[0].v
            if n == 'do_parse':
                return self.wrapped(sep, self.m_do_parse(ts[2].sub, mod, sep))
            if n in ('alt',):
                return self.wrapped(sep, self.m_alt(ts[2].sub, mod, False, sep))
            if n == 'many0':
                return self.m_many0(ts[2].sub, mod, sep)
            if n in ('tuple', 'pair', 'delimited', 'separated_pair', 'preceded', 'terminated', 'permutation', 'alt_complete',
                     'switch', 'separated_list', 'many1'):
                raise Unsupported('sep! of %s!' % n)
        return self.wrapped(sep, self.expr(ts, mod))

# ------------------------------------------------------------------ values
def term_ids(t, out):
    if not isinstance(t, tuple):
        return
    k = t[0]
    if k in ('txt', 'chr', 'byte', 'iter'):
        out.add(t[1])
    elif k == 'alt':
        out.add(t[1])
        for x in t[2].values():
            term_ids(x, out)
    elif k == 'st':
        for x in t[2].values():
            term_ids(x, out)
    elif k == 'va':
        for x in t[3]:
            term_ids(x, out)
    elif k == 'tup':
        for x in t[1]:
            term_ids(x, out)
    elif k in ('some', 'ok', 'list'):
        term_ids(t[1], out)
    elif k == 'fn':
        term_ids(t[2], out)

def term_map(t, m):
    k = t[0]
    if k in ('txt', 'chr', 'iter'):
        return (k, m.get(t[1], t[1])) + t[2:]
    if k == 'byte':
        return (k, m.get(t[1], t[1]), t[2])
    if k == 'alt':
        return ('alt', m.get(t[1], t[1]), {i: term_map(x, m) for i, x in t[2].items()})
    if k == 'st':
        return ('st', t[1], {f: term_map(x, m) for f, x in t[2].items()})
    if k == 'va':
        return ('va', t[1], t[2], [term_map(x, m) for x in t[3]])
    if k == 'tup':
        return ('tup', [term_map(x, m) for x in t[1]])
    if k in ('some', 'ok', 'list'):
        return (k, term_map(t[1], m))
    if k == 'fn':
        return ('fn', t[1], term_map(t[2], m))
    return t

def unify(a, b, m):
    """can b's captures be renamed to a's?  m: b id -> a id"""
    if a[0] != b[0]:
        return False
    k = a[0]
    def bind(x, y):
        if y in m:
            return m[y] == x
        if x in m.values():
            return False
        m[y] = x
        return True
    if k in ('txt', 'chr', 'iter'):
        return bind(a[1], b[1])
    if k == 'byte':
        return a[2] == b[2] and bind(a[1], b[1])
    if k == 'alt':
        return set(a[2]) == set(b[2]) and bind(a[1], b[1]) and all(unify(a[2][i], b[2][i], m) for i in a[2])
    if k == 'st':
        return a[1] == b[1] and set(a[2]) == set(b[2]) and all(unify(a[2][i], b[2][i], m) for i in a[2])
    if k == 'va':
        return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(unify(x, y, m) for x, y in zip(a[3], b[3]))
    if k == 'tup':
        return len(a[1]) == len(b[1]) and all(unify(x, y, m) for x, y in zip(a[1], b[1]))
    if k in ('some', 'ok', 'list'):
        return unify(a[1], b[1], m)
    if k == 'fn':
        return a[1] == b[1] and unify(a[2], b[2], m)
    return a == b

def const_bytes(s):
    return s if isinstance(s, bytes) else s.encode()

class Eval:
    """evaluates a closure or result expression over symbolic values; what it has to know about the captured
    text is decided both ways (choices), each time restricting the language of inputs"""
    def __init__(self, g, mod, S, choices=()):
        self.g, self.mod, self.S, self.choices = g, mod, S, list(choices)
        self.made = []
        self.panicked = None
        self.depth = 0
        self.owner = None
    # ---- decisions
    def decide(self, sel):
        """sel(truth) -> restricted S"""
        if self.S is None:
            raise Unsupported('symbolic decision without input')
        yes, no = sel(True), sel(False)
        if yes.empty():
            self.S = no
            return False
        if no.empty():
            self.S = yes
            return True
        i = len(self.made)
        v = self.choices[i] if i < len(self.choices) else True
        self.made.append(v)
        self.S = yes if v else no
        return v
    def in_lang(self, i, L):
        """is text i a word of L?"""
        g = self.g
        self.scalar(i)
        return self.decide(lambda v: restrict(self.S, i, L if v else g.comp(L)))
    def scalar(self, i):
        if not hasattr(self, '_lists'):
            self._lists = set()
        if i in self._lists:
            raise Unsupported('decision about an element of a list')
    def branch(self, t):
        """which alternative is it"""
        ks = sorted(t[2])
        for k in ks[:-1]:
            if self.decide(lambda v, k=k: has_mark(self.S, ('b', t[1], k), v)):
                return t[2][k]
        return t[2][ks[-1]]
    def force(self, v):
        while v[0] == 'alt':
            v = self.branch(v)
        return v
    def truth(self, v):
        v = self.force(v)
        if v[0] == 'bool':
            return v[1]
        if v[0] == 'pred':
            return self.in_lang(v[1], v[2])
        raise Unsupported('condition %r' % (v,))
    # ---- functions
    def apply(self, f, args, env):
        """f: AST of a function value"""
        if f[0] == 'closure':
            e = dict(env)
            for p, a in zip(f[1], args):
                if not self.bind(p, a, e):
                    raise Unsupported('closure pattern')
            try:
                return self.ev(f[2], e)
            except Return as r:
                return r.v
        if f[0] == 'path':
            if len(f[1]) == 1 and f[1][0] in env and env[f[1][0]][0] == 'clos':
                c = env[f[1][0]]
                return self.apply(c[1], args, c[2])
            return self.call(f[1], args)
        raise Unsupported('function value %r' % (f[0],))
    def newtype(self, st):
        """single-field structs around a text stand for the text"""
        return st
    def ctor(self, owner, name, fields):
        return ('st', name, fields)
    def find_struct(self, name):
        c = [s for s in self.g.c.structs if s.name == name]
        return c[0] if len(c) == 1 else None
    def find_enum(self, name, variant):
        c = [e for e in self.g.c.enums if (name is None or e.name == name) and any(v[0] == variant for v in e.variants)]
        return c[0] if len(c) == 1 else None
    def call(self, segs, args):
        g = self.g
        last = segs[-1]
        own = segs[-2] if len(segs) > 1 else None
        if own in ('Self', 'self') and self.owner:
            own = self.owner if own == 'Self' else None
        if last == 'Some' and len(args) == 1: return ('some', args[0])
        if last == 'Ok' and len(args) == 1: return ('ok', args[0])
        if last == 'Err': return ('err',)
        if own == 'Box' and last == 'new': return args[0]
        if own == 'IpAddr' and last in ('V4', 'V6') and len(args) == 1: return args[0]
        # enum constructors
        if last[0].isupper():
            name = own
            if name is None or name in ('Self',):
                name = None
            e = self.find_enum(name, last)
            if e is not None:
                return ('va', e.name, last, list(args))
            s = self.find_struct(last)
            if s is not None and s.tuple_:
                return self.mk(s.name, {str(i): a for i, a in enumerate(args)})
        # functions of the crate
        fs = [f for f in g.c.fns if f.name == last and f.body is not None and
              (f.owner == own or own is not None and f.owner is None and f.mod.split('::')[-1] == own or own is None and f.owner is None)]
        if last == 'from' and own is not None and len(args) == 1:
            fs = [f for f in fs if f.trait and self.fits(f, args[0])]
        if own == 'ByteSlice' and args and args[0][0] in ('txt', 'utf'):
            return self.method(args[0], last, args[1:])
        if len(fs) == 1 and not (own in ('ByteSlice',)):
            return self.inline(fs[0], args)
        if len(fs) > 1:
            raise Unsupported('several functions %s' % '::'.join(segs))
        a = self.force(args[0]) if args and args[0][0] == 'alt' else (args[0] if args else None)
        if last == 'from_str' and a and a[0] in ('txt', 'utf'):
            return self.parse_text(own, a)
        if last in ('from', 'into', 'identity', 'Bytes', 'from_static') and len(args) == 1 and (own in ('IpAddr', 'Into', 'From', 'Bytes', 'Vec', 'String', 'convert') or own in ('u16', 'u32', 'u64', 'usize')):
            return args[0]
        if last in ('is_digit', 'is_alphabetic', 'is_alphanumeric', 'is_hex_digit', 'is_space') and a and a[0] == 'int':
            b = a[1]
            return ('bool', b in {'is_digit': DIGITS, 'is_alphabetic': ALPHA, 'is_alphanumeric': ALPHA | DIGITS, 'is_hex_digit': HEX, 'is_space': {32, 9}}[last])
        if own in ('str',) and last == 'from_utf8' and a and a[0] == 'txt':
            return self.method(a, 'into_utf8', [])
        if last in TEXT_IDENT | {'len', 'is_empty', 'iter'} and a is not None and own is not None:
            return self.method(a, last, args[1:])
        if last in ('new', 'default', 'none') and own in ('HashMap', 'Vec', 'BTreeMap') and not args:
            return ('list', ('none',))
        if last in ('min', 'max') and all(x[0] == 'int' for x in args):
            return ('int', (min if last == 'min' else max)(x[1] for x in args))
        raise Unsupported('call of %s' % '::'.join(segs))
    def fits(self, f, a):
        """which From impl applies to this argument"""
        t = f.trait
        if a[0] == 'txt':
            return 'Bytes' in t or '[u8]' in t and 'Bytes' not in t and not any(
                x.name == 'from' and x.owner == f.owner and x.trait and 'Bytes' in x.trait for x in self.g.c.fns)
        if a[0] == 'utf':
            return 'str' in t
        if a[0] == 'list':
            return 'Vec' in t or 'HashMap' in t
        return True
    def mk(self, name, fields):
        s = self.find_struct(name)
        if len(fields) == 1:
            f, v = next(iter(fields.items()))
            if v[0] in ('txt',) and name == 'SmtpString':
                return v
        return ('st', name, fields)
    def inline(self, f, args, selfv=None):
        self.depth += 1
        if self.depth > 12:
            raise Unsupported('deep calls')
        env = {}
        if selfv is not None:
            env['self'] = selfv
        ps = f.params
        if f.selfk and selfv is None:
            env['self'] = args[0]
            args = args[1:]
        if len(ps) != len(args):
            raise Unsupported('arguments of %s' % f.name)
        for (pt, ty), a in zip(ps, args):
            e = rsyn.Ex(pt); p = e.pat()
            if not self.bind(p, a, env):
                raise Unsupported('parameter pattern')
        om, oo = self.mod, self.owner
        self.mod, self.owner = f.mod, f.owner
        try:
            return self.ev(rsyn.block(f.body), env)
        except Return as r:
            return r.v
        finally:
            self.mod, self.owner = om, oo
            self.depth -= 1
    def parse_text(self, ty, a):
        g = self.g
        i = a[1]
        if ty == 'Ipv4Addr':
            return ('ok', ('fn', 'Ipv4Addr', ('txt', i))) if self.in_lang(i, g.ipv4()) else ('err',)
        if ty == 'Ipv6Addr':
            return ('ok', ('fn', 'Ipv6Addr', ('txt', i))) if self.in_lang(i, g.ipv6()) else ('err',)
        if ty == 'IpAddr':
            if self.in_lang(i, g.ipv4()): return ('ok', ('fn', 'Ipv4Addr', ('txt', i)))
            return ('ok', ('fn', 'Ipv6Addr', ('txt', i))) if self.in_lang(i, g.ipv6()) else ('err',)
        top = {'u8': 256, 'u16': 65536, 'u32': 1 << 32, 'u64': 1 << 64, 'usize': 1 << 64}.get(ty)
        if top:
            return ('ok', ('fn', 'num', ('txt', i))) if self.in_lang(i, g.number_below(top)) else ('err',)
        raise Unsupported('%s::from_str' % ty)
    # ---- methods
    def method(self, r, name, args, env=None):
        g = self.g
        if r[0] == 'alt':
            # keep alternatives where the method does not look at them
            if name in ('into', 'clone', 'to_owned') and not args:
                return r
            r = self.force(r)
        k = r[0]
        if k == 'rng' and name == 'contains' and len(args) == 1:
            lo = self.binop('>=', args[0], r[1])
            if not self.truth(lo): return ('bool', False)
            return self.binop('<=' if r[3] else '<', args[0], r[2])
        if k == 'str':
            if name in TEXT_IDENT or name in ('as_bytes', 'as_ref', 'iter', 'bytes', 'into_iter', 'cloned', 'copied'): return r
            if name == 'len': return ('int', len(const_bytes(r[1])))
            if name == 'contains' and len(args) == 1:
                c = self.force(args[0])
                if c[0] == 'int':
                    return ('bool', c[1] in const_bytes(r[1]))
                if c[0] in ('byte', 'chr'):
                    cs = g.cls(set(const_bytes(r[1])))
                    if not cs: return ('bool', False)
                    return ('pred', c[1], fa.concat(g.anylen(c[2]), fa.lit([cs]), g.sstar) if c[0] == 'byte' else fa.lit([cs]))
        if k in ('txt', 'utf', 'chr'):
            i = r[1]
            if name == 'into_utf8' and k == 'txt':
                return ('ok', ('utf', i)) if self.in_lang(i, g.utf8()) else ('err',)
            if name == 'parse' and k == 'utf':
                raise Unsupported('str::parse')
            if name in TEXT_IDENT:
                if k == 'utf' and name in ('as_bytes', 'into', 'to_owned', 'to_string', 'clone', 'as_ref'):
                    return ('txt', i) if name in ('as_bytes', 'into') else r
                return r
            if name == 'len':
                return ('len', i)
            if name == 'is_empty':
                return ('pred', i, EPS)
            if name in ('iter', 'bytes', 'iter_elements', 'chars', 'into_iter', 'cloned', 'iter_bytes'):
                return ('iter', i)
            if name in ('starts_with', 'ends_with', 'contains') and args and args[0][0] == 'str':
                w = g.word(args[0][1])
                return ('pred', i, {'starts_with': lambda: fa.concat(w, g.sstar), 'ends_with': lambda: fa.concat(g.sstar, w),
                                    'contains': lambda: fa.concat(g.sstar, w, g.sstar)}[name]())
            if name == 'eq_ignore_ascii_case' and args and args[0][0] == 'str':
                return ('pred', i, g.word(args[0][1], True))
        if k == 'iter':
            if name in ('all', 'any'):
                f = args[0]
                ok = set()
                for b in range(256):
                    sub = Eval(g, self.mod, None)
                    if sub.truth(sub.applyv(f, [('int', b)])):
                        ok.add(b)
                cs = g.cls(ok)
                if name == 'all':
                    return ('pred', r[1], g.many_of(cs))
                return ('pred', r[1], fa.concat(g.sstar, fa.lit([cs]), g.sstar) if cs else NONE)
            if name in ('iter', 'into_iter', 'cloned', 'copied', 'by_ref', 'map') and not args:
                return r
        if k == 'list':
            if name in ('into_iter', 'collect', 'iter', 'into', 'clone', 'drain'):
                return r
        if k in ('some', 'none'):
            if name == 'map':
                return r if k == 'none' else ('some', self.applyv(args[0], [r[1]]))
            if name == 'and_then':
                return r if k == 'none' else self.applyv(args[0], [r[1]])
            if name in ('is_some', 'is_none'):
                return ('bool', (k == 'some') == (name == 'is_some'))
            if name in ('unwrap', 'expect'):
                if k == 'none':
                    return self.panic('unwrap of None')
                return r[1]
            if name in ('unwrap_or',):
                return args[0] if k == 'none' else r[1]
            if name == 'ok_or':
                return ('err',) if k == 'none' else ('ok', r[1])
            if name in ('as_ref', 'clone', 'into', 'cloned', 'take'):
                return r
        if k in ('ok', 'err'):
            if name == 'map':
                return r if k == 'err' else ('ok', self.applyv(args[0], [r[1]]))
            if name == 'map_err':
                return r
            if name == 'and_then':
                return r if k == 'err' else self.applyv(args[0], [r[1]])
            if name in ('unwrap', 'expect'):
                return self.panic('unwrap of an error') if k == 'err' else r[1]
            if name == 'ok':
                return ('none',) if k == 'err' else ('some', r[1])
            if name in ('is_ok', 'is_err'):
                return ('bool', (k == 'ok') == (name == 'is_ok'))
        if k == 'int':
            b = r[1]
            t = {'is_ascii_digit': DIGITS, 'is_ascii_alphabetic': ALPHA, 'is_ascii_alphanumeric': ALPHA | DIGITS, 'is_ascii_hexdigit': HEX,
                 'is_ascii_graphic': set(range(33, 127)), 'is_ascii': set(range(128)), 'is_ascii_control': set(range(32)) | {127},
                 'is_ascii_uppercase': set(range(65, 91)), 'is_ascii_lowercase': set(range(97, 123)),
                 'is_ascii_whitespace': {9, 10, 12, 13, 32}, 'is_ascii_punctuation': set(range(33, 127)) - ALPHA - DIGITS}.get(name)
            if t is not None:
                return ('bool', b in t)
            if name in ('to_ascii_lowercase',):
                return ('int', b | 32 if 65 <= b <= 90 else b)
            if name in ('to_ascii_uppercase',):
                return ('int', b & ~32 if 97 <= b <= 122 else b)
            if name in ('clone', 'into', 'to_owned'):
                return r
        if k in ('fn', 'unit', 'bool', 'tup') and name in ('into', 'clone'):
            return r
        if k in ('st', 'va'):
            fs = [f for f in g.c.fns if f.name == name and f.owner == r[1] and f.selfk]
            if len(fs) == 1:
                return self.inline(fs[0], list(args), r)
            if name in ('into', 'clone') and not fs:
                return r
        raise Unsupported('method %s on %s' % (name, k))
    def applyv(self, f, args):
        if f[0] == 'clos':
            return self.apply(f[1], args, f[2])
        if f[0] == 'fnpath':
            return self.call(f[1], args)
        raise Unsupported('function value')
    def panic(self, why):
        self.panicked = why
        raise Return(('unit',))
    # ---- patterns
    def bind(self, p, v, env):
        k = p[0]
        if k == 'pwild' or k == 'prest': return True
        if k == 'pbind':
            env[p[1]] = v
            return True
        if k == 'pat@':
            env[p[1]] = v
            return self.bind(p[2], v, env)
        if k == 'por':
            for q in p[1]:
                if self.bind(q, v, env): return True
            return False
        if k == 'ptuple':
            v = self.force(v)
            if v[0] == 'unit' and not p[1]: return True
            if v[0] == 'tup' and len(p[1]) == len(v[1]):
                return all([self.bind(q, x, env) for q, x in zip(p[1], v[1])])
            raise Unsupported('tuple pattern')
        if k == 'plit':
            v = self.force(v)
            return self.truth(self.binop('==', v, self.ev(p[1], {})))
        if k == 'prange':
            v = self.force(v)
            return self.truth(self.binop('>=', v, ('int', p[1]))) and self.truth(self.binop('<=', v, ('int', p[2])))
        if k == 'pctor':
            v = self.force(v)
            n = p[1][-1]
            if v[0] in ('some', 'none', 'ok', 'err'):
                want = {'Some': 'some', 'None': 'none', 'Ok': 'ok', 'Err': 'err'}.get(n)
                if want is None: raise Unsupported('pattern %s' % n)
                if v[0] != want: return False
                if want in ('some', 'ok'):
                    return self.bind(p[2][0], v[1], env)
                return all(q[0] in ('pwild', 'pbind') for q in p[2])
            if v[0] == 'va':
                if v[2] != n: return False
                return all([self.bind(q, x, env) for q, x in zip(p[2], v[3])])
            if v[0] == 'st' and v[1] == n:
                return all([self.bind(q, v[2][str(i)], env) for i, q in enumerate(p[2])])
            c = None
            try: c = self.g.const(('path', p[1]), self.mod)
            except Unsupported: pass
            if isinstance(c, int):
                return self.truth(self.binop('==', v, ('int', c)))
            raise Unsupported('pattern %s' % n)
        if k == 'pstruct':
            v = self.force(v)
            if v[0] == 'st':
                return all([self.bind(q, v[2][f], env) for f, q in p[2]])
        raise Unsupported('pattern %s' % k)
    # ---- expressions
    def ev(self, a, env):
        k = a[0]
        g = self.g
        if k in ('int', 'str', 'bool'): return a
        if k == 'chr': return ('int', a[1])
        if k == 'unit': return a
        if k == 'path':
            if len(a[1]) == 1 and a[1][0] in env:
                return env[a[1][0]]
            n = a[1][-1]
            if n == 'None': return ('none',)
            own = a[1][-2] if len(a[1]) > 1 else None
            if own == 'Self': own = self.owner
            if n[0].isupper():
                e = self.find_enum(own, n)
                if e is not None:
                    v = [x for x in e.variants if x[0] == n][0]
                    if v[1] == 'unit':
                        return ('va', e.name, n, [])
                    return ('fnpath', a[1])
            try:
                c = g.const(a, self.mod)
                return ('int', c) if isinstance(c, int) else ('str', c)
            except Unsupported:
                pass
            c = [x for x in g.c.consts if x[1] == n and x[0] == own]
            if len(c) == 1:
                e = rsyn.Ex(c[0][3]); x = e.expr(); e.done()
                oo = self.owner
                self.owner = c[0][0]
                try: return self.ev(x, {})
                finally: self.owner = oo
            return ('fnpath', a[1])
        if k == 'closure':
            return ('clos', a, env)
        if k == 'range' and a[1] is not None and a[2] is not None:
            return ('rng', self.ev(a[1], env), self.ev(a[2], env), a[3])
        if k == 'tuple':
            return ('tup', [self.ev(x, env) for x in a[1]])
        if k == 'array':
            xs = [self.ev(x, env) for x in a[1]]
            if all(x[0] == 'int' for x in xs):
                return ('str', bytes(x[1] for x in xs))
            raise Unsupported('array')
        if k == 'struct':
            if a[3] is not None: raise Unsupported('struct update')
            n = a[1][-1]
            if n == 'Self': n = self.owner
            fields = {f: self.ev(e, env) for f, e in a[2]}
            if len(a[1]) > 1 or self.find_struct(n) is None:
                e = self.find_enum(a[1][-2] if len(a[1]) > 1 else None, n)
                if e is not None:
                    v = [x for x in e.variants if x[0] == n][0]
                    return ('va', e.name, n, [fields[f] for f, _ in v[2]])
            return self.mk(n, fields)
        if k == 'call':
            if a[1][0] == 'path':
                segs = a[1][1]
                if len(segs) == 1 and segs[0] in env:
                    return self.applyv(env[segs[0]], [self.ev(x, env) for x in a[2]])
                return self.call(segs, [self.ev(x, env) for x in a[2]])
            f = self.ev(a[1], env)
            return self.applyv(f, [self.ev(x, env) for x in a[2]])
        if k == 'meth':
            r = self.ev(a[1], env)
            return self.method(r, a[2], [self.ev(x, env) for x in a[3]])
        if k == 'field':
            v = self.force(self.ev(a[1], env))
            if v[0] == 'st' and a[2] in v[2]: return v[2][a[2]]
            if v[0] == 'tup' and a[2].isdigit(): return v[1][int(a[2])]
            if v[0] == 'txt' and a[2] == '0': return v
            raise Unsupported('field %s' % a[2])
        if k == 'index':
            v = self.force(self.ev(a[1], env))
            if a[2][0] == 'range' and a[2][1] is None and a[2][2] is None:
                return v
            i = self.ev(a[2], env) if a[2][0] != 'range' else None
            if v[0] == 'txt' and i and i[0] == 'int':
                # out of bounds would panic
                if not self.in_lang(v[1], fa.concat(g.anylen(i[1] + 1), g.sstar)):
                    return self.panic('index %d out of range' % i[1])
                return ('byte', v[1], i[1])
            if v[0] == 'str' and i and i[0] == 'int' and i[1] < len(v[1]):
                return ('int', v[1][i[1]])
            raise Unsupported('index')
        if k == 'un':
            v = self.ev(a[2], env)
            if a[1] in ('&', '*'):
                return v
            if a[1] == '!':
                v = self.force(v)
                if v[0] == 'bool': return ('bool', not v[1])
                if v[0] == 'pred': return ('pred', v[1], g.comp(v[2]))
            if a[1] == '-' and v[0] == 'int': return ('int', -v[1])
            raise Unsupported('operator %s' % a[1])
        if k == 'cast':
            return self.ev(a[1], env)
        if k == 'bin':
            if a[1] in ('&&', '||'):
                l = self.ev(a[2], env)
                t = self.truth(l)
                if t == (a[1] == '||'):
                    return ('bool', t)
                return self.ev(a[3], env)
            return self.binop(a[1], self.ev(a[2], env), self.ev(a[3], env))
        if k == 'if':
            return self.ev(a[2] if self.truth(self.ev(a[1], env)) else a[3], env)
        if k == 'iflet':
            v = self.ev(a[2], env)
            e = dict(env)
            if self.bind(a[1], v, e):
                return self.ev(a[3], e)
            return self.ev(a[4], env)
        if k == 'match':
            v = self.ev(a[1], env)
            for p, gd, b in a[2]:
                e = dict(env)
                if self.bind(p, v, e) and (gd is None or self.truth(self.ev(gd, e))):
                    return self.ev(b, e)
            raise Infeasible()
        if k == 'block':
            e = dict(env)
            for s in a[1]:
                if s[0] == 'let':
                    v = self.ev(s[2], e)
                    if not self.bind(s[1], v, e): raise Unsupported('let pattern')
                else:
                    self.ev(s[1], e)
            return self.ev(a[2], e)
        if k == 'try':
            v = self.force(self.ev(a[1], env))
            if v[0] == 'ok' or v[0] == 'some': return v[1]
            if v[0] in ('err', 'none'): raise Return(v)
            raise Unsupported('?')
        if k == 'ret':
            raise Return(self.ev(a[1], env))
        if k == 'macro':
            if a[1] in ('assert', 'debug_assert'):
                p = commas_expr(a[2])[0]
                e = rsyn.Ex(p); x = e.expr(); e.done()
                if not self.truth(self.ev(x, env)):
                    return self.panic('failed assertion')
                return ('unit',)
            if a[1] in ('assert_eq', 'assert_ne', 'debug_assert_eq'):
                xs = []
                for p in commas_expr(a[2])[:2]:
                    e = rsyn.Ex(p); xs.append(self.ev(e.expr(), env))
                if not self.truth(self.binop('!=' if a[1].endswith('ne') else '==', *xs)):
                    return self.panic('failed assertion')
                return ('unit',)
            if a[1] in ('unreachable', 'panic', 'unimplemented', 'todo'):
                return self.panic(a[1])
            try:
                c = g.const(a, self.mod)
                return ('str', c)
            except Unsupported:
                pass
            raise Unsupported('macro %s!' % a[1])
        raise Unsupported('expression %s' % k)
    def binop(self, op, l, r):
        g = self.g
        l, r = self.force(l), self.force(r)
        if l[0] == 'int' and r[0] == 'int':
            x, y = l[1], r[1]
            if op in ('==', '!=', '<', '<=', '>', '>='):
                return ('bool', {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
            if op in '+-*&|^%/' and not (op in '%/' and y == 0):
                return ('int', {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y, '%': x % y if y else 0, '/': x // y if y else 0}[op])
        if l[0] in ('int', 'str') and r[0] not in ('int', 'str'):
            flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
            if op in flip:
                return self.binop(flip[op], r, l)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            cmp = lambda x, y: {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
            if l[0] == 'byte' and r[0] == 'int':
                cs = g.cls({b for b in range(256) if cmp(b, r[1])})
                return ('pred', l[1], fa.concat(g.anylen(l[2]), fa.lit([cs]), g.sstar) if cs else NONE)
            if l[0] == 'chr' and r[0] == 'int':
                cs = g.cls({b for b in range(256) if cmp(b, r[1])})
                return ('pred', l[1], fa.lit([cs]) if cs else NONE)
            if l[0] == 'len' and r[0] == 'int':
                n = r[1]
                if n > 2000: raise Unsupported('length')
                le = fa.union(*[g.anylen(i) for i in range(n + 1)]) if n >= 0 else NONE
                lt = fa.union(*[g.anylen(i) for i in range(n)]) if n > 0 else NONE
                return ('pred', l[1], {'==': lambda: g.anylen(n), '!=': lambda: g.comp(g.anylen(n)), '<': lambda: lt, '<=': lambda: le,
                                       '>': lambda: g.comp(le), '>=': lambda: g.comp(lt)}[op]())
            if l[0] in ('txt', 'utf') and r[0] == 'str' and op in ('==', '!='):
                w = g.word(r[1])
                return ('pred', l[1], w if op == '==' else g.comp(w))
            if l[0] == 'fn' and l[1] == 'num' and r[0] == 'int':
                i = l[2][1]
                n = r[1]
                lt, le = g.number_below(n), g.number_below(n + 1)
                return ('pred', i, {'<': lambda: lt, '<=': lambda: le, '>': lambda: g.comp(le), '>=': lambda: g.comp(lt),
                                    '==': lambda: fa.inter(le, g.comp(lt)), '!=': lambda: g.comp(fa.inter(le, g.comp(lt)))}[op]())
            if l[0] == 'bool' and r[0] == 'bool' and op in ('==', '!='):
                return ('bool', (l[1] == r[1]) == (op == '=='))
            if l[0] == 'va' and r[0] == 'va' and not l[3] and not r[3] and op in ('==', '!='):
                return ('bool', (l[2] == r[2]) == (op == '=='))
            if l[0] == 'str' and r[0] == 'str' and op in ('==', '!='):
                return ('bool', (l[1] == r[1]) == (op == '=='))
        raise Unsupported('operator %s on %s, %s' % (op, l[0], r[0]))

def restrict(S, i, L):
    """words of S whose capture i is in L"""
    op, cl = ('(', i), (')', i)
    def nxt(q):
        s, p = q
        out = []
        for c, t in S.tr[s].items():
            if c == op:
                out.append((c, (t, 0)))
            elif c == cl:
                if p is not None and L.acc[p]:
                    out.append((c, (t, None)))
            elif fa.is_byte(c) and p is not None:
                u = L.tr[p].get(c)
                if u is not None:
                    out.append((c, (t, u)))
            else:
                out.append((c, (t, p)))
        return out
    return fa.build([(0, None)], nxt, lambda q: S.acc[q[0]])

def has_mark(S, m, want):
    def nxt(q):
        s, h = q
        return [(c, (t, h or c == m)) for c, t in S.tr[s].items() if want or c != m]
    return fa.build([(0, False)], nxt, lambda q: S.acc[q[0]] and q[1] == want)

def texts(S, i):
    """the language of capture i"""
    op, cl = ('(', i), (')', i)
    starts = [t for r in S.tr for c, t in r.items() if c == op]
    ends = {s for s, r in enumerate(S.tr) if cl in r}
    if not starts:
        return NONE
    def nxt(q):
        if q in ends:
            pass
        return [((c if fa.is_byte(c) else None), t) for c, t in S.tr[q].items() if c != cl and c != END]
    return fa.build(starts, nxt, lambda q: q in ends)

# ------------------------------------------------------------------ final form
def label(g, r, whole=True):
    """the accepted inputs (whole=True: nothing left over) with markers named by the place of the value they end up in"""
    S = r.S
    lab = {}
    tag = {}
    def short(ts):
        x = rsyn.text(ts)
        if x.startswith('Option<') and x.endswith('>'):
            x = x[7:-1]
        return x.split('<')[0].split('::')[-1]
    def fname(st, f):
        """a field is named by its type where that is unambiguous (fields may be renamed), the only field not at all"""
        s = [x for x in g.c.structs if x.name == st]
        if len(s) == 1:
            if len(s[0].fields) == 1:
                return ''
            ty = {a: short(b) for a, b in s[0].fields}
            if list(ty.values()).count(ty.get(f)) == 1:
                return ty[f]
        return f
    def vname(en, va):
        e = [x for x in g.c.enums if x.name == en]
        if len(e) == 1:
            pay = {v[0]: ','.join(short(t) for _, t in v[2]) for v in e[0].variants}
            if pay.get(va) and list(pay.values()).count(pay[va]) == 1:
                return pay[va]
        return va
    def j(p, x):
        return p + '.' + x if p and x else p or x
    def go(t, p):
        k = t[0]
        if k in ('txt', 'utf', 'chr'):
            if t[1] in lab and lab[t[1]] != p:
                raise Unsupported('text used twice')
            lab[t[1]] = p
        elif k == 'fn':
            go(t[2], p + ':' + t[1])
        elif k == 'st':
            for f, x in t[2].items():
                go(x, j(p, fname(t[1], f)))
        elif k == 'va':
            for i, x in enumerate(t[3]):
                go(x, j(p, vname(t[1], t[2])) + ('' if i == 0 else str(i)))
        elif k == 'tup':
            for i, x in enumerate(t[1]):
                go(x, j(p, str(i)))
        elif k in ('some', 'ok'):
            go(t[1], p)
        elif k == 'list':
            go(t[1], p + '[]')
        elif k == 'alt':
            for i, x in t[2].items():
                ids = set()
                term_ids(x, ids)
                if x[0] == 'va' and not ids:
                    tag[(t[1], i)] = ('=', p, vname(x[1], x[2]))
                elif x[0] == 'some' and not ids:
                    tag[(t[1], i)] = ('=', p, 'Some')
                elif x[0] in ('int', 'bool', 'str'):
                    tag[(t[1], i)] = ('=', p, str(x[1]))
                go(x, p)
        elif k in ('unit', 'none', 'int', 'bool', 'str'):
            pass
        else:
            raise Unsupported('value %s' % k)
    go(r.t, '')
    def ren(s):
        if type(s) is int:
            return s
        if s[0] in '()':
            return (s[0], lab[s[1]]) if s[1] in lab else None
        return tag.get((s[1], s[2]))
    # nothing left over: no byte after END
    def nxt(q):
        s, e = q
        return [(None if c == END else ren(c), (t, e or c == END)) for c, t in S.tr[s].items() if not (e and fa.is_byte(c))]
    L = fa.build([(0, False)], nxt, lambda q: q[1] and S.acc[q[0]])
    return front(L), lab

def front(L):
    """move the '=' markers outside lists to the front, in a fixed order"""
    ms = {s for r in L.tr for s in r if type(s) is tuple and s[0] == '=' and '[]' not in s[1]}
    if not ms:
        return L
    # reachable sets of markers
    seen = {(0, frozenset())}
    todo = [(0, frozenset())]
    combos = set()
    for q in todo:
        if L.acc[q[0]]:
            combos.add(q[1])
        for c, t in L.tr[q[0]].items():
            n = (t, q[1] | {c} if c in ms else q[1])
            if n not in seen:
                seen.add(n); todo.append(n)
    out = []
    for c in combos:
        def nxt(q, c=c):
            r = []
            for s, t in L.tr[q[0]].items():
                if s in ms:
                    if s in c and s not in q[1]:
                        r.append((None, (t, q[1] | {s})))
                else:
                    r.append((s, (t, q[1])))
            return r
        d = fa.build([(0, frozenset())], nxt, lambda q, c=c: L.acc[q[0]] and q[1] == c)
        out.append(fa.concat(*([fa.mark(m) for m in sorted(c)] + [d])))
    return fa.union(*out)
