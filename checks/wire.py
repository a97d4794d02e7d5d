"""C17 (and the writing half of C15): what the serialisers write, as languages with captures, against the parsers.

The serialiser of every command runs on an unknown command (abstract interpretation); the texts written on every
path become a language whose captures are named by the place of the argument in the value, like those of the parser."""
from checks.registry import reg
from checks.base import *
from checks import grammar as gr
import fa, peg, rsyn, lin
from lin import const
from interp import *
from models import *
from models import native_iter

def short(prog, ty):
    t = prog.types[ty]
    if t['k'] == 'adt':
        if t['p'] == 'std::option::Option':
            return short(prog, t['a'][0])
        return t['p'].split('::')[-1]
    return t.get('s') or t['k']

def strip(prog, ty):
    t = prog.types[ty]
    return t

class Leaf(object):
    """an argument of the command: a text, an address, a list"""
    def __init__(self, kind, sym, label, ty=None):
        self.kind, self.sym, self.label, self.ty = kind, sym, label, ty

def leaves(env, st, ty, sym, label, out):
    """arguments inside the unknown value sym of type ty, under what the path knows about its variants"""
    prog = env.prog
    t = prog.types[ty]
    k = t['k']
    if k == 'tuple':
        for i, f in enumerate(t['f']):
            leaves(env, st, f, ('.', sym, i), label + '.' + str(i), out)
        return
    if k != 'adt':
        if k in ('never',):
            return
        raise Unsupported('argument of type %s' % (t.get('s') or k))
    p = t['p']
    if p.split('::')[-1] == 'PhantomData':
        return
    if p in BYTESEQ or p == 'std::vec::Vec' and prog.types[t['a'][0]].get('n') == 'u8':
        out.append(Leaf('text', sym, label))
        return
    if p in ('std::net::Ipv4Addr', 'std::net::Ipv6Addr'):
        out.append(Leaf('text', ('.', sym, 'display'), label + ':' + p.split('::')[-1]))
        return
    if p in ('std::collections::HashMap', 'std::collections::BTreeMap', 'std::vec::Vec'):
        e = env.pairtype(t) if len(t['a']) >= 2 and p != 'std::vec::Vec' else t['a'][0]
        out.append(Leaf('list', sym, label, e))
        return
    if t.get('ak') == 'enum':
        v = st.vf.get(sym)
        if v is None:
            out.append(Leaf('choice', sym, label))
            return
    else:
        v = 0
    fs = t['v'][v]['f']
    for i, f in enumerate(fs):
        if p in ('std::option::Option', 'std::net::IpAddr'):
            l = label
        elif t.get('ak') == 'enum':
            pay = [','.join(short(prog, g['t']) for g in w['f']) for w in t['v']]
            n = pay[v] if pay.count(pay[v]) == 1 else t['v'][v]['n']
            l = join(label, n) + ('' if i == 0 else str(i))
        elif len(fs) == 1:
            l = label
        else:
            tys = [short(prog, g['t']) for g in fs]
            l = join(label, tys[i] if tys.count(tys[i]) == 1 else f['n'])
        leaves(env, st, f['t'], ('.', sym, v, i), l, out)

def join(p, x):
    return p + '.' + x if p and x else p or x

BYTESEQ = ('bytes::Bytes', 'bytes::BytesMut', 'std::string::String')

class WriteEnv(IoEnv):
    """loops over the entries of an unknown list are cut at their head: one arbitrary entry"""
    failing = False
    ctx = None

    def start(self, kind):
        self.edges = set()      # (from, to, words, facts)
        self.kind = kind
        self.ends = []
        self.missing = []

    def known(self, st):
        """label by symbol of every argument the path knows of"""
        out = []
        leaves(self, st, self.payty, self.paysym, self.label, out)
        return out

    def normalise(self, ip, st):
        """what was found out about the command stays known although the program has no use for it any more"""
        if st.bm:
            st.gh['bytes'] = ('K', True)
        if 'node' not in st.gh:
            return
        st.gh['kept'] = ('T', *[('Y', s) for s in sorted((k for k in st.vf if mentions(k, self.paysym)), key=repr)])
        st.gh['zero'] = ('K', self.sizes(st))

    def sizes(self, st):
        """the texts and lists known to be empty or not empty"""
        z = dict(st.gh['zero'][1]) if 'zero' in st.gh else {}
        have = lin_syms(st.cons)
        for f in self.known(st):
            s = ('o', ('.', f.sym, 'len'))
            if f.kind in ('text', 'list') and s in have:
                n = lin.sym(s)
                if st.ent_eq(n):
                    z[f.sym] = True
                elif st.ent(lin.addc(n, -1)):
                    z[f.sym] = False
        return tuple(sorted(z.items(), key=repr))

    def call(self, x):
        if x.m in ('next', 'nth', 'next_back') and x.a:
            ni = native_iter(x, x.a[0])
            if ni is not None and ni[2][1] in ('pairs', 'keys', 'vals', 'iter'):
                s = ni[2][2][0]
                if s[0] in ('S', 'Q') and len(s[1]) == 1 and s[1][0][0] == 'sub':
                    r = self.entry(x, ni, s[1][0])
                    if r is not None:
                        return r
        return IoEnv.call(self, x)

    def entry(self, x, ni, sg):
        st, it = x.st, ni[2]
        sym = sg[1]
        l = [f for f in self.known(st) if f.kind == 'list' and f.sym == sym]
        if not l:
            return None
        l = l[0]
        if not (is_zero(st, lsub_(it[2][1][1], sg[2])) and is_zero(st, lsub_(it[2][2][1], sg[3]))):
            return None
        if x.m == 'nth' and x.a[1][1] != const(0):
            self.missing.append(('entries of %s are skipped' % l.label, x.ip.where(st)))
        me = ('loop', x.span, sym)
        self.cut(x.ip, st, me)
        st.gh['node'] = ('K', me)
        e = ('.', sym, 'entry')
        # what was known of the previous entry does not hold for the next one
        for d in (st.vf, st.bf, st.bm):
            for k in list(d):
                if mentions(k, e):
                    del d[k]
        st.cons = frozenset(c for c in st.cons if not mentions(c, e))
        none = st.copy()
        none.gh['done'] = ('K', tuple(sorted(set(none.gh['done'][1]) | {sym}, key=repr)))
        v = st.opaque(l.ty, e)
        if it[1] == 'iter':
            item = ('V', v)
        else:
            a, b = [('V', st.proj(v, ('f', i, None))) for i in (0, 1)]
            item = TUP(a, b) if it[1] == 'pairs' else a if it[1] == 'keys' else b
        return [(none, NONE), (st, SOME(item))]

    def cut(self, ip, st, to):
        """the text written since the last cut is an edge of the language"""
        out = st.gh.pop('out', ('S', ()))
        frm = st.gh['node'][1]
        word = []
        done = set(st.gh['done'][1])
        zero = dict(self.sizes(st))
        part = {f.sym: f for f in self.known(st)}
        for f in list(part.values()):
            if f.kind == 'list':
                es = []
                leaves(self, st, f.ty, ('.', f.sym, 'entry'), f.label + '[]', es)
                for g in es:
                    part[g.sym] = g
        for s in out[1]:
            if s[0] == 'lit':
                word.append(('lit', bytes(s[1])))
            elif s[0] == 'sub':
                f = part.get(s[1])
                if f is None and ('world' in repr(s[1]) or "'debug'" in repr(s[1])):
                    self.ctx.ob('what is written comes from the command', False, self.root.span if getattr(self, 'root', None) else '', 'a text from elsewhere is written: %r' % (s[1],), ip.where(st))
                if f is None:
                    raise Unsupported('written text of unknown origin %r' % (s[1],))
                n = lin.sym(('o', ('.', s[1], 'len')))
                whole = is_zero(st, s[2]) and is_zero(st, lsub_(s[3], n))
                if not whole:
                    self.missing.append(('only a part of %s is written' % f.label, ip.where(st)))
                if f.sym in done:
                    self.missing.append(('%s is written twice' % f.label, ip.where(st)))
                done.add(f.sym)
                r = None
                if zero.get(f.sym) is not None:
                    r = 'empty' if zero[f.sym] else 'some'
                word.append(('cap', f.label, r))
            elif s[0] == 'byt' and not s[1][1]:
                word.append(('lit', bytes([s[1][0]])))
            else:
                raise Unsupported('written %r' % (s[0],))
        # the entry of this round must have been written
        drop = []
        for f in part.values():
            if mentions(f.sym, 'entry') and frm[0] == 'loop' and base_of(f.sym) == frm[2]:
                if f.sym not in done:
                    if f.kind == 'text' and zero.get(f.sym):
                        drop.append(f.label)
                    elif to[0] == 'loop' and to == frm:
                        self.missing.append(('%s is not written' % f.label, ip.where(st)))
        done = {d for d in done if not mentions(d, 'entry')}
        st.gh['done'] = ('K', tuple(sorted(done, key=repr)))
        facts = bool(st.bm) or 'bytes' in st.gh
        if drop:
            raise Unsupported('an empty part of an entry is left out')
        self.last = (frm, to, tuple(word), tuple(drop), facts)
        self.edges.add(self.last)

    def terminal(self, ip, st):
        if st.variant_of(st.ret) != 0:
            self.missing.append(('writing fails although the output accepts everything', [self.body.path]))
            return
        fs = self.known(st)
        # arguments not written at all
        zero = dict(self.sizes(st))
        before = set(self.edges)
        self.cut(ip, st, ('end',))
        done = set(st.gh['done'][1])
        drop = []
        for f in fs:
            if f.sym in done:
                continue
            if f.kind == 'text' and zero.get(f.sym):
                drop.append(f.label)
                continue
            if f.kind == 'list' and zero.get(f.sym):
                continue
            self.missing.append(('%s is not written' % (f.label or 'the argument'), [self.body.path]))
        # an empty argument that leaves no trace: these endings are judged apart
        if drop:
            e = self.last
            self.edges = before | {(e[0], ('end', tuple(sorted(drop))), e[2], e[3], e[4])}

def base_of(sym):
    """the list an entry's symbol belongs to"""
    while isinstance(sym, tuple) and sym:
        if sym[0] == '.' and len(sym) == 3 and sym[2] == 'entry':
            return sym[1]
        sym = sym[1] if len(sym) > 1 else None
    return None

def lin_syms(cons):
    return {s for c in cons for s, _ in c[1]}

def lsub_(a, b):
    return lin.sub(a, b)

def is_zero(st, e):
    if lin.is_const(e):
        return e[0] == 0
    return st.ent_eq(e)

def mentions(x, e):
    if x == e:
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(mentions(y, e) for y in x)
    return False

def written(ctx, root='command::Command::send_to'):
    """per command kind: (label, edges, missing, body)"""
    prog = ctx.prog
    b = ctx.root(root, 'smtp_message')
    if b is None:
        raise Unsupported('no function ' + root)
    rt = prog.types[b.locals[1]]
    cty = rt['e'] if rt['k'] == 'ref' else b.locals[1]
    t = prog.types[cty]
    out = {}
    for v, vd in enumerate(t['v']):
        env = WriteEnv(prog)
        ip = ctx.make(env)
        env.body = b
        env.start(vd['n'])
        pay = [','.join(short(prog, g['t']) for g in w['f']) for w in t['v']]
        env.label = pay[v] if pay[v] and pay.count(pay[v]) == 1 else vd['n']
        if len(vd['f']) != 1:
            raise Unsupported('command with %d payloads' % len(vd['f']))
        st = ip.new_state()
        sym = ('arg', -1)
        env.payty, env.paysym = vd['f'][0]['t'], ('.', sym, v, 0)
        st.gh['node'] = ('K', ('start',))
        st.gh['done'] = ('K', ())
        cmd = ('A', cty, v, (st.opaque(env.payty, env.paysym),))
        args = []
        for i in range(1, b.argc + 1):
            ty = prog.types[b.locals[i]]
            if i == 1:
                args.append(('V', cmd) if rt['k'] == 'ref' else cmd)
            else:
                args.append(('O', b.locals[i], ('writer', 0)))
        ip.push(st, b.id, args, None, None)
        env.panics = []
        ctx.explore(ip, [st])
        out[env.label] = (env, b)
    return out

def language(g, L, lab, label, edges, own, end=('end',)):
    """the language the edges write, captures named by labels; None for unknown labels"""
    nodes = sorted({e[0] for e in edges} | {e[1] for e in edges}, key=repr)
    have = set(lab.values())
    texts = {}
    def piece(w):
        if w[0] == 'lit':
            return g.word(w[1])
        l = w[1]
        if l not in have:
            raise Unsupported('the parser has no argument %s' % l)
        if l not in texts:
            texts[l] = peg.texts(L, l)
        d = texts[l]
        if w[2] == 'empty':
            d = fa.EPS
        elif w[2] == 'some':
            d = fa.inter(d, g.anylen(1))
        return fa.wrap([('(', l)], d, [(')', l)])
    ds = {}
    for i, e in enumerate(sorted(edges, key=repr)):
        ds[i] = (e[0], e[1], fa.concat(fa.EPS, *[piece(w) for w in e[2]]))
    # one automaton: states (node) and (edge, state)
    def nxt(q):
        if q[0] == 'n':
            return [(None, ('e', i, 0)) for i, (a, b, d) in ds.items() if a == q[1]]
        _, i, s = q
        a, b, d = ds[i]
        r = [(c, ('e', i, t)) for c, t in d.tr[s].items()]
        if d.acc[s]:
            r.append((None, ('n', b)))
        return r
    W = fa.build([('n', ('start',))], nxt, lambda q: q == ('n', end))
    if own:
        W = fa.concat(fa.mark(own), W)
    return fa.minimise(W)

def silent(L, labels):
    """the lines in which these arguments are empty, without their captures"""
    def nxt(q):
        s, inside = q
        r = []
        for c, t in L.tr[s].items():
            if fa.is_byte(c):
                if not inside:
                    r.append((c, (t, inside)))
            elif c[0] == '(' and c[1] in labels:
                r.append((None, (t, True)))
            elif c[0] == ')' and c[1] in labels:
                r.append((None, (t, False)))
            else:
                r.append((c, (t, inside)))
        return r
    return fa.build([(0, False)], nxt, lambda q: L.acc[q[0]])

def unit(L, kind):
    """the marker that says a command without arguments was read"""
    for r in L.tr:
        for s in r:
            if type(s) is tuple and s[0] == '=' and s[2] == kind:
                return s
    return None

def analyse(ctx, f):
    """run the writers, then f(ps, name, L, kinds) with kinds: (command, language written, WriteEnv)"""
    ws = written(ctx)
    ps = gr.Parsers(ctx)
    def go():
        name, L, lab = gr.commands(ctx, ps)
        out = []
        for kind in sorted(ws):
            env, b = ws[kind]
            for end in sorted({e[1] for e in env.edges if e[1][0] == 'end'}, key=repr):
                W = language(ps.g, L, lab, kind, env.edges, unit(L, kind), end)
                out.append((kind, W, env, silent(L, set(end[1])) if len(end) > 1 else L))
        return f(ps, name, L, out)
    return ps, ws, ps.g.run(go)

def writers(ctx, env):
    """the function that writes this command, for reporting"""
    return env.body.span

def missing(ctx, env, kind):
    for msg, stack in env.missing:
        ctx.ob('every argument is written exactly once', False, env.body.span, '%s: %s' % (kind, msg), stack)
    if not env.missing:
        ctx.ob('every argument is written exactly once', True)

@reg('C17')
@gr.guarded
def c17(ctx):
    if ctx.incomplete:
        return
    def f(ps, name, L, out):
        g = ps.g
        nl = fa.concat(g.sstar, g.word(b'\r\n'), g.sstar)
        one = fa.concat(g.comp(nl), g.word(b'\r\n'))
        first = g.comp(fa.concat(g.sstar, g.word(b'\r\n'), g.anylen(1), g.sstar))
        r = []
        for kind, W, env, L in out:
            facts = any(e[4] for e in env.edges)
            plain = fa.erase(W)
            r.append((kind, env, facts, len(W), fa.subset(W, L),
                      fa.subset(plain, fa.inter(fa.concat(g.sstar, g.word(b'\r\n')), first))))
        return r
    ps, ws, res = analyse(ctx, f)
    sizes = {}
    for kind, env, facts, n, w, l in res:
        sizes[kind] = n
        b = worker(ctx, env, kind)
        if facts and (w is not None or l is not None):
            raise Unsupported('%s writes differently depending on the bytes of its argument' % kind)
        ctx.ob('what is written is one line', l is None, b.span, '%s is written as %s' % (kind, ps.g.show(l) if l is not None else ''), [b.path])
        ctx.ob('what is written is read back with the same arguments', w is None, b.span,
               '%s is written as %s, which is not read back as that' % (kind, ps.g.show(w) if w is not None else ''), [b.path])
    for k, (e, _) in sorted(ws.items()):
        missing(ctx, e, k)
        ctx.ob('every command can be written', bool(e.edges) or bool(ctx.incomplete), e.body.span, '%s is never written' % k, [e.body.path])
        for kind, span, stack in e.panics:
            ctx.ob('writing cannot panic', False, str(span), 'abort: ' + kind, stack)
    ctx.note('written_forms', {k: sorted(set(show_word(e[2]) for e in ws[k][0].edges)) for k in ws})
    gr.note(ctx, ps, **sizes)
    ctx.assumptions.append('from_str gives back the address that was displayed (std::net), a map iterates every entry once (std::collections)')

def show_word(w):
    return ' '.join(x[1].decode('latin1').encode('unicode_escape').decode() if x[0] == 'lit' else '<%s>' % x[1] for x in w)

def worker(ctx, env, kind):
    """the serialiser of the payload, if it has one"""
    for b in ctx.prog.bodies:
        if b.local and b.crate == 'smtp_message' and b.kind == 'fn' and b.path.endswith('send_to'):
            t = ctx.prog.types[b.locals[1]] if b.argc else None
            if t is not None and t['k'] == 'ref' and t['e'] == env.payty:
                return b
    return env.body
