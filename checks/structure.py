"""C27 (no recursion) and C31 (unchecked code): judgements on the call graph and on MIR dataflow"""
from checks.registry import reg
from checks.base import *
from interp import *
from models import Models

# ---------------------------------------------------------------- call graph
def closure_bodies(prog):
    """closure / coroutine type -> body"""
    m = {}
    for o in prog.bodies:
        if o.kind in ('closure', 'coroutine') and o.argc >= 1:
            t1 = o.locals[1]
            for _ in range(3):
                tt = prog.types[t1]
                if tt['k'] == 'ref':
                    t1 = tt['e']
                elif tt['k'] == 'adt' and tt['p'].endswith('pin::Pin') and tt['a']:
                    t1 = tt['a'][0]
                else:
                    break
            m.setdefault(t1, o.id)
    return m

def edges(prog):
    cl = closure_bodies(prog)
    virt = {}
    for b in prog.bodies:
        if b.local and b.impl_trait and b.method:
            virt.setdefault((b.impl_trait, b.method), []).append(b.id)
    out = {}
    sites = {}
    ncalls = 0
    for b in prog.bodies:
        es = out.setdefault(b.id, set())
        def edge(x, span):
            es.add(x)
            sites.setdefault((b.id, x), span)
        def operand(o, span):
            if o[0] == 'k' and isinstance(o[2], tuple) and o[2] and o[2][0] == 'fn':
                callee(prog.fns[o[2][1]], span)
            if o[0] == 'k' and isinstance(o[2], tuple) and o[2] and o[2][0] == 'fnptr':
                x = prog.bykey.get((o[2][1], o[2][2]))
                if x is not None:
                    edge(x, span)
        def callee(c, span):
            x = prog.body_of(c)
            if x is not None:
                edge(x, span)
            elif c.get('dyn') is not None or c.get('ik') == 'virtual':
                for y in virt.get((c.get('trait'), c.get('m')), ()):
                    edge(y, span)
        for blk in b.blocks:
            for s in blk[0]:
                if s[0] != '=':
                    continue
                r = s[2]
                if r[0] == 'agg' and r[1][0] in ('closure', 'coroutine'):
                    x = cl.get(r[1][1])
                    if x is not None:
                        edge(x, s[3])
                for o in rv_operands(r):
                    operand(o, s[3])
            t = blk[1]
            if t[0] == 'call':
                ncalls += 1
                callee(prog.fns[t[1]], t[6])
                for o in t[2]:
                    operand(o, t[6])
    return out, sites, ncalls

def rv_operands(r):
    k = r[0]
    if k in ('use', 'repeat'):
        return [r[1]]
    if k == 'bin':
        return [r[2], r[3]]
    if k in ('un', 'cast'):
        return [r[2]]
    if k == 'agg':
        return list(r[2])
    return []

def sccs(g):
    idx = {}
    low = {}
    on = set()
    st = []
    out = []
    n = 0
    for root in g:
        if root in idx:
            continue
        idx[root] = low[root] = n
        n += 1
        st.append(root)
        on.add(root)
        work = [(root, iter(g.get(root, ())))]
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out

def contains_type(prog, t, target, depth=0, seen=None):
    """does type t contain (own) the type target"""
    if seen is None:
        seen = set()
    if t is None or t in seen or depth > 12:
        return False
    seen.add(t)
    if t == target or prog.types[t]['s'] == prog.types[target]['s']:
        return True
    tt = prog.types[t]
    subs = []
    if tt['k'] == 'adt':
        subs = list(tt['a']) + [f['t'] for v in tt.get('v', []) for f in v['f']]
    elif tt['k'] in ('tuple',):
        subs = tt['f']
    elif tt['k'] in ('closure', 'coroutine'):
        subs = tt.get('f') or tt.get('a') or []
    elif tt['k'] in ('array', 'slice'):
        subs = [tt['e']]
    return any(contains_type(prog, s, target, depth + 1, seen) for s in subs)

SESSION = ('smtp_message', 'smtp_server')

@reg('C27')
def c27(ctx):
    prog = ctx.prog
    g, sites, ncalls = edges(prog)
    local = [b for b in prog.bodies if b.local and b.crate in SESSION]
    ctx.note('functions', len(local))
    ctx.note('call_graph', dict(nodes=len(g), edges=sum(len(v) for v in g.values()), call_sites=ncalls))
    ctx.ob('the session code was found', len(local) > 50, 'smtp-message, smtp-server', 'only %d functions found' % len(local))
    bad = set()
    for c in sccs(g):
        if len(c) == 1 and c[0] not in g.get(c[0], ()):
            continue
        loc = [x for x in c if prog.bodies[x].local and prog.bodies[x].crate in SESSION]
        if not loc:
            continue
        cs = set(c)
        for x in loc:
            bad.add(x)
        x = min(loc, key=lambda i: prog.bodies[i].path)
        # one cycle through x
        path = cycle(g, x, cs)
        names = [prog.bodies[y].path for y in path]
        span = sites.get((path[0], path[1])) if len(path) > 1 else prog.bodies[x].span
        ctx.ob('no function reachable from the input calls itself, directly or through others', False, str(span),
               'recursive: ' + ' -> '.join(names), names[:1], key='recursion|' + '|'.join(sorted(set(prog.bodies[y].path for y in loc)))[:200])
    for b in local:
        if b.id not in bad:
            ctx.ob('no function reachable from the input calls itself, directly or through others', True)
            ctx.funcs.add(b.id)
    # values whose destructor recurses once per element
    for a in prog.adts:
        if a['crate'] not in SESSION:
            continue
        rec = recursive_type(prog, a['t'])
        ctx.ob('no owned data structure is recursive (its destructor would recurse)', not rec, a['path'], 'type %s owns values of its own type' % a['path'])
    # trait objects wrapped again and again
    n = 0
    for b in local:
        for bi, blk in enumerate(b.blocks):
            for s in blk[0]:
                if s[0] == '=' and s[2][0] == 'cast' and 'nsize' in s[2][1]:
                    dst = s[2][3]
                    src = operand_type(prog, b, s[2][2])
                    d = boxed(prog, dst)
                    if d is None or src is None:
                        continue
                    n += 1
                    inner = boxed_any(prog, src)
                    nested = inner is not None and contains_type(prog, inner, dst) and in_loop(prog, b, bi)
                    ctx.ob('no trait object is wrapped into another of the same type in a loop', not nested, s[3],
                           'a boxed value is nested once more in every iteration', [b.path])
    ctx.note('trait_object_coercions', n)

def boxed(prog, t):
    tt = prog.types[t]
    if tt['k'] == 'adt' and tt['p'].endswith('pin::Pin') and tt['a']:
        return boxed(prog, tt['a'][0])
    if tt['k'] == 'adt' and tt['p'].endswith('boxed::Box') and tt['a'] and prog.types[tt['a'][0]]['k'] == 'dyn':
        return tt['a'][0]
    return None

def boxed_any(prog, t):
    tt = prog.types[t]
    if tt['k'] == 'adt' and tt['p'].endswith('pin::Pin') and tt['a']:
        return boxed_any(prog, tt['a'][0])
    if tt['k'] == 'adt' and tt['p'].endswith('boxed::Box') and tt['a']:
        return tt['a'][0]
    return None

def operand_type(prog, b, o):
    if o[0] == 'k':
        return o[1]
    if o[0] in ('c', 'm'):
        p = o[1]
        if not p[1]:
            return b.locals[p[0]]
        if p[1][-1][0] == 'f':
            return p[1][-1][2]
    return None

def in_loop(prog, b, bi):
    seen = set()
    w = list(prog.succs(b.blocks[bi][1]))
    while w:
        x = w.pop()
        if x == bi:
            return True
        if x not in seen:
            seen.add(x)
            w.extend(prog.succs(b.blocks[x][1]))
    return False

def recursive_type(prog, t):
    tt = prog.types[t]
    subs = [f['t'] for v in tt.get('v', []) for f in v['f']]
    return any(owns(prog, s, tt.get('p'), set()) for s in subs)

def owns(prog, t, name, seen):
    if t is None or t in seen:
        return False
    seen.add(t)
    tt = prog.types[t]
    k = tt['k']
    if k == 'adt':
        if tt['p'] == name:
            return True
        return any(owns(prog, x, name, seen) for x in list(tt['a']) + [f['t'] for v in tt.get('v', []) for f in v['f']])
    if k == 'tuple':
        return any(owns(prog, x, name, seen) for x in tt['f'])
    if k in ('array', 'slice'):
        return owns(prog, tt['e'], name, seen)
    return False

def cycle(g, x, cs):
    prev = {}
    w = [x]
    while w:
        nw = []
        for v in w:
            for y in g.get(v, ()):
                if y == x:
                    p = [v]
                    while p[-1] != x:
                        p.append(prev[p[-1]])
                    return p[::-1] + [x]
                if y in cs and y not in prev:
                    prev[y] = v
                    nw.append(y)
        w = nw
    return [x]

# ---------------------------------------------------------------- C31
ALLOWED = ('new_unchecked', 'get_unchecked_mut', 'map_unchecked', 'map_unchecked_mut', 'into_inner_unchecked')
PRIVATE = {'byteslice::ByteSlice': 'a window inside its buffer', 'reply::ReplyCode': 'below 1000',
           'reply::ReplyLine': 'length and character limits', 'streamext::prependable::Prependable': 'order of the stream',
           'data::stream::DataStream': 'decoder state', 'data::sink::DataSink': 'encoder state',
           'email::Email': 'a local part that was parsed', 'smtpstring::SmtpString': 'its bytes'}

class Pins:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.pinned = {}        # (type, field) -> where it is pinned
        self.plain = {}         # (type, field) -> where it is used as ordinary data
        self.cl = closure_bodies(ctx.prog)
        self.done = set()

    def fail(self, b, span, msg):
        self.ctx.ob('a pinned value stays in place', False, span, msg, [b.path])

    def ok(self):
        self.ctx.ob('a pinned value stays in place', True)

    def defs(self, b, l):
        out = []
        for bi, blk in enumerate(b.blocks):
            for s in blk[0]:
                if s[0] == '=' and s[1][0] == l and not s[1][1]:
                    out.append(('rv', s[2], s[3]))
            t = blk[1]
            if t[0] == 'call' and t[3] is not None and t[3][0] == l and not t[3][1]:
                out.append(('call', self.prog.fns[t[1]], t))
        if 1 <= l <= b.argc:
            out.append(('arg', l, None))
        return out

    def origins(self, b, place, seen=()):
        """the places a mutable reference held in `place` may point to: (kind, data, projections)"""
        l, pr = place
        if pr:
            return [('place', (l, pr), ())]
        if l in seen:
            return []
        out = []
        for d in self.defs(b, l):
            if d[0] == 'arg':
                out.append(('arg', l, ()))
            elif d[0] == 'call':
                out.append(('call', d[1], d[2]))
            else:
                r = d[1]
                if r[0] == 'use' and r[1][0] in ('c', 'm'):
                    out.extend(self.origins(b, r[1][1], seen + (l,)))
                elif r[0] == 'ref':
                    p = r[2]
                    if p[1] and p[1][0][0] == '*':
                        for o in self.origins(b, (p[0], ()), seen + (l,)):
                            out.append(('via', o, p[1][1:]))
                    else:
                        out.append(('local', p[0], p[1]))
                elif r[0] == 'cast' and r[2][0] in ('c', 'm'):
                    out.extend(self.origins(b, r[2][1], seen + (l,)))
                else:
                    out.append(('other', r[0], ()))
        return out

    def pointee(self, t):
        tt = self.prog.types[t]
        while tt['k'] == 'adt' and tt['p'].endswith('pin::Pin'):
            t = tt['a'][0]
            tt = self.prog.types[t]
        return tt.get('e') if tt['k'] in ('ref', 'ptr') else (tt['a'][0] if tt.get('a') else None)

    def tname(self, t):
        return self.prog.types[t].get('p') or self.prog.types[t]['s']

    def pin(self, b, t, proj, span):
        """the field reached by proj inside a value of type t is used as pinned"""
        if any(e[0] == '*' for e in proj):
            return self.fail(b, span, 'a value behind a further reference is treated as pinned')
        f = [e for e in proj if e[0] == 'f']
        if f:
            self.pinned.setdefault((self.tname(t), f[0][1]), (span, b.path))
        self.ok()

    def body(self, b):
        for bi, blk in enumerate(b.blocks):
            t = blk[1]
            if t[0] != 'call':
                continue
            c = self.prog.fns[t[1]]
            if not (c.get('path') or '').startswith('std::pin::Pin::<'):
                continue
            if c['m'] == 'new_unchecked':
                self.new_unchecked(b, bi, t)
            elif c['m'] in ('map_unchecked_mut', 'map_unchecked'):
                self.map_unchecked(b, t, c)
            elif c['m'] in ('get_unchecked_mut', 'into_inner_unchecked'):
                ty = self.pointee(b.locals[t[3][0]]) if not t[3][1] else None
                if ty is None:
                    self.fail(b, t[6], 'the reference behind a pin is stored away')
                else:
                    self.uses(b, t[3][0], ty, t[6], set())

    def new_unchecked(self, b, bi, t):
        a = t[2][0]
        if a[0] == 'k':
            return self.ok()
        for o in self.origins(b, a[1]):
            proj = ()
            while o[0] == 'via':
                proj = tuple(o[2]) + proj
                o = o[1]
            if o[0] == 'local':
                if any(e[0] == '*' for e in tuple(o[2]) + proj):
                    self.fail(b, t[6], 'a value behind a reference is pinned here, but its owner can still move it')
                else:
                    self.stays(b, bi, o[1], t[6])
            elif o[0] == 'call' and o[1].get('path', '').startswith('std::pin::Pin::<') and o[1].get('m') in ('get_unchecked_mut', 'get_mut', 'into_inner_unchecked'):
                self.pin(b, self.pointee(b.locals[o[2][3][0]]), proj, t[6])
            elif o[0] == 'call' and o[1].get('m') in ('deref_mut', 'as_mut') and 'Pin' in o[1].get('path', ''):
                self.pin(b, self.pointee(b.locals[o[2][3][0]]), proj, t[6])
            else:
                self.fail(b, t[6], 'what is pinned here is not owned here: the caller can still move it')

    def stays(self, b, bi, l, span):
        """local l is pinned by block bi: not moved or lent mutably afterwards"""
        prog = self.prog
        seen = set()
        work = [b.blocks[bi][1][4]] if b.blocks[bi][1][4] is not None else []
        bad = None
        while work and bad is None:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            dead = False
            for s in b.blocks[x][0]:
                if s[0] == 'dead' and s[1] == l or s[0] == 'live' and s[1] == l:
                    dead = True
                    break
                if s[0] != '=':
                    continue
                for o in rv_operands(s[2]):
                    if o[0] == 'm' and o[1][0] == l and not any(e[0] == '*' for e in o[1][1]):
                        bad = (s[3], 'moved')
                if s[2][0] == 'ref' and s[2][1] not in ('shared', 'fake') and s[2][2][0] == l and not any(e[0] == '*' for e in s[2][2][1]):
                    if not self.only_pinned(b, s[1]):
                        bad = (s[3], 'lent out mutably')
                if s[1][0] == l and not any(e[0] == '*' for e in s[1][1]):
                    if not s[1][1]:
                        dead = True     # a new value
                        break
            if dead or bad:
                continue
            t = b.blocks[x][1]
            ops = list(t[2]) if t[0] == 'call' else []
            for o in ops:
                if o[0] == 'm' and o[1][0] == l and not any(e[0] == '*' for e in o[1][1]):
                    bad = (t[6], 'moved')
            work.extend(prog.succs(t))
        if bad:
            self.fail(b, bad[0], 'a value pinned at %s is %s here' % (span, bad[1]))
        else:
            self.ok()

    def only_pinned(self, b, p):
        """the reference stored in p only goes into Pin::new_unchecked (again)"""
        if p[1]:
            return False
        l = p[0]
        for blk in b.blocks:
            for s in blk[0]:
                if s[0] != '=':
                    continue
                for o in rv_operands(s[2]):
                    if o[0] in ('c', 'm') and o[1][0] == l:
                        if s[2][0] == 'use' and not o[1][1] and self.only_pinned(b, s[1]):
                            continue
                        return False
                if s[2][0] == 'ref' and s[2][2][0] == l:
                    if s[2][1] in ('shared', 'fake') or (s[2][2][1] == (('*',),) and self.only_pinned(b, s[1])):
                        continue
                    return False
            t = blk[1]
            if t[0] == 'call':
                for o in t[2]:
                    if o[0] in ('c', 'm') and o[1][0] == l:
                        c = self.prog.fns[t[1]]
                        if not ((c.get('path') or '').startswith('std::pin::Pin::<') and c.get('m') == 'new_unchecked'):
                            return False
        return True

    def map_unchecked(self, b, t, c):
        ty = None
        f = t[2][1]
        cid = None
        if f[0] in ('c', 'm'):
            for d in self.defs(b, f[1][0]):
                if d[0] == 'rv' and d[1][0] == 'agg' and d[1][1][0] == 'closure':
                    cid = self.cl.get(d[1][1][1])
        elif f[0] == 'k':
            if isinstance(f[2], tuple) and f[2][0] == 'fn':
                cid = self.prog.body_of(self.prog.fns[f[2][1]])
            else:
                cid = self.cl.get(f[1])
        if cid is None:
            return self.fail(b, t[6], 'the projection of a pinned value cannot be determined')
        cb = self.prog.bodies[cid]
        argl = cb.argc if cb.kind != 'closure' else 2
        ty = self.prog.types[cb.locals[argl]].get('e')
        for o in self.origins(cb, (0, ())):
            proj = ()
            while o[0] == 'via':
                proj = tuple(o[2]) + proj
                o = o[1]
            if o[0] == 'arg' and o[1] == argl:
                self.pin(cb, ty, proj, t[6])
            else:
                self.fail(cb, cb.span, 'the projection of a pinned value yields something outside of it')

    def uses(self, b, l, ty, span, seen):
        """follow a mutable reference to the inside of a pinned value of type ty"""
        if (b.id, l) in seen:
            return
        seen.add((b.id, l))
        prog = self.prog
        def field(pr, sp):
            """place (*l).pr is used as ordinary data"""
            f = [e for e in pr if e[0] == 'f']
            if not f:
                return False
            self.plain.setdefault((self.tname(ty), f[0][1]), (sp, b.path))
            return True
        for blk in b.blocks:
            for s in blk[0]:
                if s[0] != '=':
                    continue
                r = s[2]
                if s[1][0] == l and s[1][1]:
                    if not field(s[1][1], s[3]):
                        self.fail(b, s[3], 'a pinned value is overwritten')
                for o in rv_operands(r):
                    if o[0] in ('c', 'm') and o[1][0] == l:
                        if not o[1][1]:
                            if r[0] == 'use' and not s[1][1]:
                                self.uses(b, s[1][0], ty, span, seen)
                                if s[1][0] == 0:
                                    self.fail(b, s[3], 'a mutable reference to a pinned value is returned')
                            else:
                                self.fail(b, s[3], 'a mutable reference to a pinned value is stored away')
                        elif not field(o[1][1], s[3]):
                            self.fail(b, s[3], 'a pinned value is moved')
                if r[0] == 'ref' and r[2][0] == l and r[2][1]:
                    if r[1] in ('shared', 'fake'):
                        continue
                    if [e for e in r[2][1] if e[0] == 'f']:
                        if s[1][1] or not self.only_pinned(b, s[1]) or s[1][0] == 0:
                            field(r[2][1], s[3])
                    elif not s[1][1]:
                        self.uses(b, s[1][0], ty, span, seen)
                        if s[1][0] == 0:
                            self.fail(b, s[3], 'a mutable reference to a pinned value is returned')
            t = blk[1]
            if t[0] == 'call':
                c = prog.fns[t[1]]
                for i, o in enumerate(t[2]):
                    if o[0] in ('c', 'm') and o[1][0] == l:
                        if o[1][1]:
                            if not field(o[1][1], t[6]):
                                self.fail(b, t[6], 'a pinned value is moved')
                            continue
                        if (c.get('path') or '').startswith('std::pin::Pin::<') and c.get('m') == 'new_unchecked':
                            continue
                        x = prog.body_of(c)
                        if x is not None and prog.bodies[x].local:
                            self.uses(prog.bodies[x], i + 1, ty, span, seen)
                        else:
                            self.fail(b, t[6], 'a mutable reference to a pinned value is handed to %s' % (c.get('path') or 'a function value'))
        self.ok()

@reg('C31')
def c31(ctx):
    prog = ctx.prog
    for u in prog.unsafe:
        sp = u['span'] if isinstance(u['span'], str) else u['span'][0]
        op = u.get('op')
        if op is None or op == 'call std::future::get_context':
            continue
        ok = op.startswith('call std::pin::Pin::<') and op.rsplit('::', 1)[1] in ALLOWED
        ctx.ob('unchecked operations only pin values or reach into pinned ones', ok, sp, '%s in an unsafe block' % op, [u['in']],
               key='unsafe|%s|%s' % (u['in'], op))
    ctx.note('unsafe_blocks', [('%s: %s' % (u['in'], u['span'])) for u in prog.unsafe if 'op' not in u])
    for r in prog.roots:
        if r.get('unsafe'):
            ctx.ob('no unsafe functions', False, str(r['span']), 'unsafe function %s' % r['path'], [r['path']])
    ctx.ob('no unsafe functions', True)
    for i in prog.impls:
        if i.get('unsafe') and not (i['trait'] or '').endswith('TrivialClone'):
            ctx.ob('no unsafe trait implementations', False, str(i['span']), 'unsafe implementation of %s' % i['trait'])
    ctx.ob('no unsafe trait implementations', True)
    p = Pins(ctx)
    for b in prog.bodies:
        if b.local and b.kind in ('fn', 'closure', 'coroutine'):
            p.body(b)
            ctx.funcs.add(b.id)
    for k, (sp, fn) in sorted(p.pinned.items()):
        ctx.ob('a field is either pinned with its owner or ordinary, never both', k not in p.plain, p.plain.get(k, (sp,))[0],
               'field %d of %s is pinned in %s and used as ordinary data in %s' % (k[1], k[0], fn, p.plain.get(k, ('', ''))[1]), [fn])
    ctx.note('pinned_fields', sorted('%s.%d' % k for k in p.pinned))
    names = set(k[0] for k in p.pinned)
    for i in prog.impls:
        n = p.tname(i['self_t'])
        if n in names:
            ctx.ob('types with pinned fields have neither destructor nor their own Unpin', i['trait'] not in ('std::ops::Drop', 'std::marker::Unpin'),
                   str(i['span']), '%s for %s, which pins a field' % (i['trait'], n))
    for a in prog.adts:
        if p.tname(a['t']) in names:
            ctx.ob('types with pinned fields are not packed', 'pack: None' in a['repr'], a['path'], 'packed representation')
        if a['path'] in PRIVATE:
            for v in prog.types[a['t']]['v']:
                for f in v['f']:
                    ctx.ob('fields that carry an invariant are private to their module', bool(f['mod']), a['path'],
                           'field %s of %s (%s) is visible outside its module' % (f['n'], a['path'], PRIVATE[a['path']]), [a['path']])
