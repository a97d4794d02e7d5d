"""Loads the dumped crates into one program: global type ids, bodies, liveness, join points."""
import json, os, re

class Body:
    __slots__ = ('id', 'key', 'crate', 'path', 'krate', 'local', 'kind', 'span', 'argc', 'spread', 'locals',
                 'blocks', 'root', 'self_ty', 'impl_trait', 'method', 'trait_default', 'name', 'vis', 'pre',
                 'dp', 'cname', 'live_in', 'addr', 'heads', 'joins', 'names', 'raw', 'up', 'wpos', 'wend')

class Unsupported(Exception):
    pass

CRATES = ('smtp_message', 'smtp_server', 'smtp_queue')

_fix = [(re.compile(r'\b(failure|nom|tokio|futures|bytes|itertools|smtp_message)::(core|std|alloc)::'), r'\2::'),
        (re.compile(r'\b(core|alloc)::'), 'std::'),
        (re.compile(r'\bnom::nom::'), 'nom::'), (re.compile(r'\bnom::traits::'), 'nom::'),
        (re.compile(r'\bnom::util::'), 'nom::')]

def canon_name(s):
    """one name per library item, whichever re-export the compiler printed it through"""
    for r, t in _fix:
        s = r.sub(t, s)
    return s

class Prog:
    def __init__(self, dumpdir):
        self.types = []
        self.bodies = []
        self.bykey = {}
        self.bydp = {}         # definition path -> body, for the analysed crates' own functions
        self.fns = []          # callee objects
        self.fnids = {}
        self.roots = []
        self.adts = []
        self.impls = []
        self.consts = []
        self.unsafe = []
        self.wfn = {}
        self.wit = {}          # (type, trait, method) -> body, for calls through trait objects and bounds
        for c in CRATES:
            p = os.path.join(dumpdir, c + '.json')
            with open(p) as f:
                d = json.load(f)
            self.load(c, d)
        self.adt_types = {}
        self.synth = {}

    def load(self, crate, d):
        off = len(self.types)
        def T(i):
            return None if i is None else i + off
        for t in d['types']:
            t = dict(t)
            if 'e' in t:
                t['e'] = T(t['e'])
            if 'f' in t:
                t['f'] = [T(x) for x in t['f']]
            if 'a' in t:
                t['a'] = [T(x) for x in t['a']]
            if 'v' in t:
                t['v'] = [dict(n=v['n'], d=v['d'], f=[dict(n=f['n'], t=T(f['t']), pub=f.get('pub'), mod=f.get('mod')) for f in v['f']])
                          for v in t['v']]
            t['crate'] = crate
            self.types.append(t)
        def callee(c):
            c = dict(c)
            for f in ('path', 'rpath'):
                if f in c:
                    c[f] = canon_name(c[f])
            if 'a' in c:
                c['a'] = tuple(T(x) for x in c['a'])
            if 'out' in c:
                c['out'] = T(c['out'])
            if 'dyn' in c:
                c['dyn'] = T(c['dyn'])
            if 'ptr' in c:
                c['ptr'] = operand(c['ptr'])
            c['crate'] = crate
            return c
        def cval(v):
            """constant tree -> hashable; leave as json, convert lazily"""
            return v
        def operand(o):
            if o[0] in ('c', 'm'):
                return (o[0], place(o[1]))
            if o[0] == 'k':
                k = o[1]
                if 'fn' in k:
                    return ('k', T(k['t']), ('fn', self.fnid(callee(k['fn']))), None)
                return ('k', T(k['t']), self.constval(k.get('v'), T(k['t']), crate), k.get('name'))
            return ('rt',)
        def place(p):
            pr = []
            for e in p[1]:
                if e[0] == 'f':
                    pr.append(('f', e[1], T(e[2])))
                elif e[0] == 'cast':
                    continue
                else:
                    pr.append(tuple(e))
            return (p[0], tuple(pr))
        def rvalue(r):
            k = r[0]
            if k == 'use':
                return ('use', operand(r[1]))
            if k == 'ref':
                return ('ref', r[1], place(r[2]))
            if k == 'bin':
                return ('bin', r[1], operand(r[2]), operand(r[3]))
            if k == 'un':
                return ('un', r[1], operand(r[2]))
            if k == 'discr':
                return ('discr', place(r[1]))
            if k == 'cast':
                return ('cast', r[1], operand(r[2]), T(r[3]))
            if k == 'agg':
                a = list(r[1])
                if a[0] in ('adt', 'closure', 'coroutine', 'rawptr', 'array'):
                    a[1] = T(a[1])
                return ('agg', tuple(a), tuple(operand(x) for x in r[2]))
            if k == 'repeat':
                return ('repeat', operand(r[1]), r[2] if len(r) > 2 else None)
            return ('other',) + tuple(json.dumps(x) for x in r)
        for key, b in d['bodies'].items():
            o = Body()
            o.id = len(self.bodies)
            o.key = key
            o.crate = crate
            o.raw = None
            for f in ('path', 'krate', 'local', 'kind', 'span', 'argc', 'spread', 'root', 'impl_trait', 'method',
                      'trait_default', 'name', 'vis', 'pre', 'up', 'dp'):
                setattr(o, f, b.get(f))
            if isinstance(o.span, list):
                o.span = o.span[0]
            o.self_ty = T(b.get('self_ty'))
            o.locals = [T(l['t']) for l in b['locals']]
            o.names = {i: l['n'] for i, l in enumerate(b['locals']) if 'n' in l}
            o.blocks = []
            for bb in b['blocks']:
                st = []
                if not bb['c']:
                    for s in bb['s']:
                        if s[0] == '=':
                            sp = s[3]
                            st.append(('=', place(s[1]), rvalue(s[2]), sp[0] if isinstance(sp, list) else sp))
                        elif s[0] == 'setd':
                            st.append(('setd', place(s[1]), s[2]))
                        elif s[0] in ('dead', 'live'):
                            st.append((s[0], s[1]))
                        elif s[0] == 'assume':
                            st.append(('assume', operand(s[1])))
                        else:
                            st.append(tuple(s))
                t = bb['t']
                def sp(x):
                    return x[0] if isinstance(x, list) else x
                k = t[0]
                if bb['c']:
                    t = ('cleanup',)
                elif k == 'switch':
                    t = ('switch', operand(t[1]), tuple((v, x) for v, x in t[2]), t[3], T(t[4]), sp(t[5]))
                elif k == 'drop':
                    t = ('drop', place(t[1]), t[2], T(t[3]), sp(t[4]))
                elif k == 'call':
                    t = ('call', self.fnid(callee(t[1])), tuple(operand(x) for x in t[2]), place(t[3]), t[4], T(t[5]), sp(t[6]))
                elif k == 'assert':
                    t = ('assert', operand(t[1]), t[2], t[3], tuple(operand(x) for x in t[4]), t[5], sp(t[6]))
                elif k == 'yield':
                    t = ('yield', t[1], place(t[2]), sp(t[3]))
                elif k == 'ret':
                    t = ('ret', sp(t[1]) if len(t) > 1 else '')
                else:
                    t = tuple(t)
                o.blocks.append((st, t))
            self.analyse(o)
            self.bodies.append(o)
            self.bykey[(crate, key)] = o.id
            if o.local:
                self.bydp.setdefault(o.dp, o.id)
        for r in d['roots']:
            r = dict(r)
            r['crate'] = crate
            r['body'] = self.bykey.get((crate, r['key']))
            self.roots.append(r)
        for a in d['adts']:
            self.adts.append(dict(a, crate=crate, t=T(a['t'])))
        for i in d['impls']:
            self.impls.append(dict(i, crate=crate, self_t=T(i['self'])))
        for c in d['consts']:
            self.consts.append(dict(c, crate=crate, t=T(c['t'])))
        for w in d.get('witnesses', ()):
            if w['key'] is not None and (crate, w['key']) in self.bykey:
                self.wit.setdefault((T(w['t']), w['trait'].rsplit('::', 1)[-1], w['m']), self.bykey[(crate, w['key'])])
        for u in d['unsafe_blocks']:
            self.unsafe.append(dict(u, crate=crate))

    def fnid(self, c):
        k = json.dumps(c, sort_keys=True, default=str)
        i = self.fnids.get(k)
        if i is None:
            i = len(self.fns)
            self.fns.append(c)
            self.fnids[k] = i
        return i

    def constval(self, v, t, crate):
        """json constant -> value tuple (see interp)"""
        if v is None:
            return ('unk',)
        if 'i' in v:
            return ('i', v['i'])
        if 'b' in v:
            return ('b', v['b'])
        if 'bytes' in v:
            return ('bytes', bytes(v['bytes']))
        if 'ref' in v:
            return ('ref', self.constval(v['ref'], None, crate))
        if 'zst' in v:
            return ('zst',)
        if 'adt' in v:
            return ('adt', v['adt'], tuple(self.constval(x, None, crate) for x in v['f']))
        if 'arr' in v:
            return ('arr', tuple(self.constval(x, None, crate) for x in v['arr']))
        if 'tup' in v:
            return ('tup', tuple(self.constval(x, None, crate) for x in v['tup']))
        if 'fnptr' in v:
            return ('fnptr', crate, v['fnptr'], v.get('path'))
        return ('unk', json.dumps(v)[:200])

    def ty(self, i):
        return self.types[i]

    def body_of(self, callee):
        if 'body' in callee:
            return callee['body']
        k = callee.get('inst')
        if k is None:
            dp = callee.get('rdp')
            return self.bydp.get(dp) if dp else None
        return self.bykey.get((callee['crate'], k))

    def find_root(self, suffix, crate=None):
        out = []
        for r in self.roots:
            if r['body'] is not None and (crate is None or r['crate'] == crate):
                if r['path'].endswith(suffix):
                    out.append(r)
        return out

    # ---- per-body analyses -------------------------------------------------
    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x for _, x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        if k == 'yield':
            return [t[1]]
        return []

    def analyse(self, o):
        n = len(o.blocks)
        addr = set()
        use = [set() for _ in range(n)]
        defs = [set() for _ in range(n)]
        for bi, (st, t) in enumerate(o.blocks):
            u, d = use[bi], defs[bi]
            def rd(l):
                if l not in d:
                    u.add(l)
            def rdplace(p):
                rd(p[0])
                for e in p[1]:
                    if e[0] == 'i':
                        rd(e[1])
            def rdop(x):
                if x[0] in ('c', 'm'):
                    rdplace(x[1])
            def wr(p):
                if not p[1]:
                    d.add(p[0])
                else:
                    rdplace(p)
            def rdrv(r):
                k = r[0]
                if k == 'use' or k == 'repeat':
                    rdop(r[1])
                elif k == 'ref':
                    rdplace(r[2])
                    if not any(e[0] == '*' for e in r[2][1]):
                        addr.add(r[2][0])
                elif k == 'bin':
                    rdop(r[2]); rdop(r[3])
                elif k in ('un', 'cast'):
                    rdop(r[2])
                elif k == 'discr':
                    rdplace(r[1])
                elif k == 'agg':
                    for x in r[2]:
                        rdop(x)
            for s in st:
                if s[0] == '=':
                    rdrv(s[2]); wr(s[1])
                elif s[0] == 'setd':
                    rdplace(s[1])
                elif s[0] in ('dead', 'live'):
                    d.add(s[1])
                elif s[0] == 'assume':
                    rdop(s[1])
            k = t[0]
            if k == 'switch':
                rdop(t[1])
            elif k == 'drop':
                pass
            elif k == 'call':
                for x in t[2]:
                    rdop(x)
                if t[3][1]:
                    rdplace(t[3])
                else:
                    d.add(t[3][0])
                c = self.fns[t[1]]
                if 'ptr' in c:
                    rdop(c['ptr'])
            elif k == 'assert':
                rdop(t[1])
                for x in t[4]:
                    rdop(x)
            elif k == 'ret':
                rd(0)
            elif k == 'yield':
                if t[2][1]:
                    rdplace(t[2])
                else:
                    d.add(t[2][0])
        live = [set() for _ in range(n)]
        changed = True
        su = [self.succs(t) for _, t in o.blocks]
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                s = set()
                for x in su[b]:
                    s |= live[x]
                s = (s - defs[b]) | use[b]
                if s != live[b]:
                    live[b] = s
                    changed = True
        o.live_in = live
        o.addr = addr
        # back edges (iterative DFS)
        color = [0] * n
        heads = set()
        stack = [(0, iter(su[0]))] if n else []
        if n:
            color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color[x] == 0:
                    color[x] = 1
                    stack.append((x, iter(su[x])))
                    break
                elif color[x] == 1:
                    heads.add(x)
            else:
                color[b] = 2
                stack.pop()
        o.heads = heads
        preds = [0] * n
        for b in range(n):
            if color[b]:
                for x in set(su[b]):
                    preds[x] += 1
        o.joins = set(b for b in range(n) if preds[b] > 1) | heads
        o.wpos, o.wend = wto(n, su)


def wto(n, su):
    """weak topological order (Bourdoncle): position of each block, and the last position of each loop by its head"""
    dfn = [0] * n
    num = [0]
    stack = []
    INF = 1 << 60
    def visit(v, part):
        # recursive in loop nesting depth and path length; blocks are few
        stack.append(v)
        num[0] += 1
        dfn[v] = head = num[0]
        loop = False
        for w in su[v]:
            m = visit(w, part) if dfn[w] == 0 else dfn[w]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head
    def component(v):
        part = []
        for w in su[v]:
            if dfn[w] == 0:
                visit(w, part)
        return (v, part)
    import sys
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 20000))
    top = []
    if n:
        visit(0, top)
    sys.setrecursionlimit(old)
    pos, end, c = {}, {}, [0]
    def number(part):
        for x in part:
            c[0] += 1
            if isinstance(x, tuple):
                pos[x[0]] = c[0]
                number(x[1])
                end[x[0]] = c[0]
            else:
                pos[x] = c[0]
    number(top)
    return pos, end
