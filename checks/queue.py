"""Queue checks: C29 (a sending attempt), C30 (start-up).

The futures the two functions build are built from the source and then polled by a client, with futures 0.1's own
combinators interpreted from their MIR. Storage, transport and timer are arbitrary: every operation is, at any poll,
not ready, successful or failed. A spawned task goes on in a state of its own (tasks share nothing but the storage and
the transport). At most one mail is followed per state."""
from checks.registry import reg
from checks.base import *
from checks.streams import ClientEnv, TRUE
from interp import *
from models import *
import lin

QM, IM, FIM, MAIL = ('qm',), ('im',), ('fim',), ('mail',)
DUE = {'qm': 'a sending attempt was due for a mail', 'qm!': 'a sending attempt was begun and abandoned', 'fim': 'a mail found in flight was not put back',
       'fim!': 'putting back a mail found in flight was begun and abandoned'}
OPEN = {'inflight': 'a mail was marked in flight, nothing else', 'reading': 'a mail was marked in flight, reading it was begun and abandoned',
        'read': 'a mail was read and not handed to the transport', 'sending': 'the mail was handed to the transport and its answer not awaited',
        'delivered': 'a delivered mail was not marked as done', 'finishing': 'marking a delivered mail as done was begun and abandoned',
        'failed': 'a mail the transport refused was not put back', 'returning': 'putting a refused mail back was begun and abandoned'}
BAD = {'cancel_found_inflight': 'putting back a mail found in flight', 'send_start': 'marking the mail in flight', 'get_mail': 'reading the mail',
       'send_done': 'marking the mail as done', 'send_cancel': 'putting the mail back'}
NS = 10**9
HOUR = 3600 * NS

def ext(*sym):
    # (name, number) is a generated symbol to the engine; keep lengths of time out of that form
    return ('O', None, tuple(('ns', a) if isinstance(a, int) and sym[0] in ('inst', 'dur', 'delay') else a for a in sym))

class QueueEnv(ClientEnv):
    # ---- monitor state
    def ph(self, st):
        return st.gh['ph'][1] if 'ph' in st.gh else None
    def due(self, st):
        return st.gh['due'][1] if 'due' in st.gh else None
    def put(self, st, k, v):
        if v is None: st.gh.pop(k, None)
        else: st.gh[k] = ('K', v)
    def lb(self, st):
        return st.gh['lb'][1] if 'lb' in st.gh else 0

    def ob(self, x, rule, ok, msg):
        return self.ctx.ob(rule, ok, str(x.span), msg, x.ip.where(x.st))

    def box(self, st, v):
        return ('N', 'box', (st.newheap(v),))

    # ---- operations of the environment
    def call(self, x):
        tr = (x.c.get('trait') or '').rsplit('::', 1)[-1]
        m = x.m
        if m in ('poll',) and tr in ('Future', 'Stream') and x.a:
            try:
                v = deep(x.st, x.a[0])
            except Unsupported:
                return None
            if v[0] == 'O' and isinstance(v[2], tuple) and v[2][0] in ('xf', 'xs', 'delay'):
                return self.poll_ext(x, x.st, v[2])
            return None
        b = x.ip.prog.body_of(x.c)
        if b is not None and self.attempt is not None and x.ip.prog.bodies[b].dp == self.attempt.dp:
            # a further attempt: what this analysis decides of every attempt
            if not self.ob(x, 'a mail due for sending is marked in flight, once and first', self.due(x.st) == 'qm' and any(self.is_(x.st, a, QM) for a in x.a), 'an attempt for a mail that is not due for one'):
                return []
            self.put(x.st, 'due', 'qm!')
            return one(x.st, self.box(x.st, ext('xf', 'attempt')))
        if tr == 'Storage' or tr == 'Transport' or tr == 'InflightMail':
            return self.op(x, tr, m)
        name = x.c.get('rpath') or x.c.get('path') or ''
        if (x.c.get('rkrate') or x.c.get('krate') or '').startswith('tokio') and m == 'spawn' or name.endswith('tokio::spawn'):
            return self.spawn(x)
        if m == 'now' and 'Instant' in name:
            return one(x.st, ext('inst', self.lb(x.st)))
        if 'Duration' in name or 'Instant' in name or 'Delay' in name:
            return self.time(x, name, m)
        return None

    def time(self, x, name, m):
        st = x.st
        if m in ('from_secs', 'from_millis', 'from_micros', 'from_nanos', 'from_mins', 'from_hours') and 'Duration' in name:
            n = x.a[0]
            if n[0] != 'i' or not lin.is_const(n[1]):
                raise Unsupported('duration of unknown length')
            k = {'from_secs': NS, 'from_millis': 10**6, 'from_micros': 1000, 'from_nanos': 1, 'from_mins': 60 * NS, 'from_hours': HOUR}[m]
            return one(st, ext('dur', n[1][0] * k))
        if m == 'new' and name.endswith('Duration::new'):
            a, b = x.a
            if not (lin.is_const(a[1]) and lin.is_const(b[1])):
                raise Unsupported('duration of unknown length')
            return one(st, ext('dur', a[1][0] * NS + b[1][0]))
        if m in ('clone', 'to_owned'):
            return one(st, st.deref(x.a[0]))
        if m in ('add', 'sub', 'checked_add', 'checked_sub', 'add_assign', 'sub_assign', 'mul'):
            a = st.deref(x.a[0]) if x.a[0][0] in ('R', 'V') else x.a[0]
            if m == 'mul':
                b = x.a[1]
                d = self.dur(st, a)
                if b[0] != 'i' or not lin.is_const(b[1]):
                    raise Unsupported('duration of unknown length')
                return one(st, ext('dur', d * b[1][0]))
            d = self.dur(st, x.a[1])
            s = -1 if 'sub' in m else 1
            if a[0] == 'O' and a[2][0] == 'inst':
                r = ext('inst', a[2][1][1] + s * d)
            else:
                r = ext('dur', self.dur(st, a) + s * d)
            if m.endswith('_assign'):
                cell, path = target(x.ip, st, x.a[0])
                st.store(cell, path, r)
                return one(st, UNIT)
            return one(st, SOME(r) if m.startswith('checked') else r)
        if m == 'new' and 'Delay' in name:
            v = x.a[0]
            if v[0] == 'O' and v[2][0] == 'inst':
                return one(st, ext('delay', v[2][1][1]))
            raise Unsupported('timer deadline %s' % show(v)[:40])
        return None

    def dur(self, st, v):
        """length of a duration in ns"""
        v = collapse(v)
        if v[0] == 'O' and isinstance(v[2], tuple) and v[2][0] == 'dur':
            return v[2][1][1]
        if v[0] == 'A' and len(v[3]) == 2:
            out = []
            for f in v[3]:
                while f[0] == 'A' and len(f[3]) == 1:
                    f = f[3][0]
                if f[0] != 'i' or not lin.is_const(f[1]):
                    raise Unsupported('duration of unknown length')
                out.append(f[1][0])
            return out[0] * NS + out[1]
        raise Unsupported('duration %s' % show(v)[:60])

    def is_(self, st, v, sym):
        v = collapse(deep(st, v))
        return v[0] == 'O' and v[2] == sym

    def op(self, x, tr, m):
        st = x.st
        ph, due = self.ph(st), self.due(st)
        if m == 'list_queue':
            self.ob(x, 'the queue is listed once', 'ls' not in st.gh, 'the queue is listed again')
            self.put(st, 'ls', 'open')
            return one(st, self.box(st, ext('xs', m)))
        if m == 'find_inflight':
            self.ob(x, 'mails in flight are looked for once', 'fi' not in st.gh, 'mails in flight are looked for again')
            ls = st.gh['ls'][1] if 'ls' in st.gh else None
            self.ob(x, 'mails in flight are looked for only after the queue was listed', ls == 'end', 'mails in flight are looked for although the queue was not listed to its end')
            self.put(st, 'fi', 'open')
            return one(st, self.box(st, ext('xs', m)))
        if m == 'cancel_found_inflight':
            if not self.ob(x, 'only a mail found in flight is put back, once', due == 'fim' and self.is_(st, x.a[1], FIM), 'put back: %s' % show(deep(st, x.a[1]))[:40]):
                return []
            if not self.ob(x, 'a mail found in flight is put back no earlier than an hour after the start', self.lb(st) >= HOUR,
                           'put back when only %g s are sure to have passed since the start' % (self.lb(st) / NS)):
                return []
            self.put(st, 'due', 'fim!')
        elif m == 'send_start':
            if not self.ob(x, 'a mail due for sending is marked in flight, once and first', due == 'qm' and self.is_(st, x.a[1], QM), 'marked in flight: %s' % show(deep(st, x.a[1]))[:40]):
                return []
            self.put(st, 'due', 'qm!')
        elif m == 'get_mail':
            if not self.ob(x, 'a mail is read after it was marked in flight', ph in ('inflight', 'read') and self.is_(st, x.a[0], IM), 'read in phase %s' % ph):
                return []
            self.put(st, 'ph', 'reading')
        elif m == 'send':
            if not self.ob(x, 'a mail is handed to the transport exactly once', ph in ('inflight', 'read'), 'handed over again (in phase "%s")' % ph):
                return []
            if not self.ob(x, 'the mail handed to the transport is the one read', ph == 'read' and self.is_(st, x.a[1], MAIL), 'handed over: %s' % show(deep(st, x.a[1]))[:60]):
                return []
            self.put(st, 'ph', 'sending')
        elif m == 'send_done':
            if not self.ob(x, 'a mail is marked as done only after the transport reported success', ph == 'delivered' and self.is_(st, x.a[1], IM), 'marked as done in phase "%s"' % ph):
                return []
            self.put(st, 'ph', 'finishing')
        elif m == 'send_cancel':
            if not self.ob(x, 'a mail handed to the transport is put back only after it reported failure', ph in ('failed', 'inflight', 'read', 'unread') and self.is_(st, x.a[1], IM),
                           'put back in phase "%s"' % ph):
                return []
            self.put(st, 'ph', 'returning')
        else:
            raise Unsupported('operation %s' % m)
        return one(st, self.box(st, ext('xf', m)))

    # when an operation that was called is under way
    CALLED = {'cancel_found_inflight': ('due', 'fim!'), 'send_start': ('due', 'qm!'), 'get_mail': ('ph', 'reading'), 'send': ('ph', 'sending'),
              'send_done': ('ph', 'finishing'), 'send_cancel': ('ph', 'returning')}

    def poll_ext(self, x, st, sym):
        res = []
        w = st.copy()
        w.gh['wait'] = TRUE
        if sym[0] == 'delay':
            res.append((w, OK(PENDING)))
            e = st.copy()
            # a failing timer: nothing more can be asked of the task
            self.put(e, 'due', None)
            e.gh['gone'] = TRUE
            self.put(e, 'bad', 'the timer')
            res.append((e, ERR(ext('timer error'))))
            self.put(st, 'lb', max(self.lb(st), sym[1][1]))
            res.append((st, OK(READY(UNIT))))
            return res
        if sym[0] == 'xs':
            g = 'ls' if sym[1] == 'list_queue' else 'fi'
            if not self.idle(x, st, 'before the next one is asked for'):
                return []
            if not self.ob(x, 'no operation is polled after it finished', g in st.gh and st.gh[g][1] == 'open', '%s is polled after its end' % sym[1]):
                return []
            w = st.copy()
            w.gh['wait'] = TRUE
            res.append((w, OK(PENDING)))
            e, n = st.copy(), st.copy()
            self.put(e, g, 'err')
            self.put(e, 'bad', 'listing the queue' if g == 'ls' else 'looking for mails in flight')
            res.append((e, ERR(UNIT)))
            self.put(n, g, 'end')
            res.append((n, OK(READY(NONE))))
            self.put(st, 'due', 'qm' if g == 'ls' else 'fim')
            res.append((st, OK(READY(SOME(ext(*(QM if g == 'ls' else FIM)))))))
            return res
        m = sym[1]
        if m == 'attempt':
            if self.due(st) is not None:
                if not self.ob(x, 'no operation is polled after it finished', self.due(st) == 'qm!', 'an attempt is polled although it is not under way'):
                    return []
                self.put(st, 'due', None)
                self.ctx.ob('a mail that is queued or put back gets a sending attempt', True)
            w, e = st.copy(), st.copy()
            w.gh['wait'] = TRUE
            self.put(e, 'bad', 'the new attempt')
            return [(w, OK(PENDING)), (e, ERR(UNIT)), (st, OK(READY(UNIT)))]
        g, want = self.CALLED[m]
        if not self.ob(x, 'no operation is polled after it finished', g in st.gh and st.gh[g][1] == want, '%s is polled although it is not under way' % m):
            return []
        res.append((w, OK(PENDING)))
        e = st.copy()
        self.put(e, g, None)
        if m != 'send':
            self.put(e, 'bad', BAD[m])
        if m == 'get_mail':
            self.put(e, 'ph', 'unread')     # it may stay in flight (until the next start) or be put back
        if m == 'send':
            self.put(e, 'ph', 'failed')
            res.append((e, ERR(TUP(ext('code'), ext('text')))))
        else:
            res.append((e, ERR(UNIT)))
        if m == 'cancel_found_inflight':
            self.put(st, 'due', 'qm')
            v = ext(*QM)
        elif m == 'send_start':
            self.put(st, 'due', None)
            self.put(st, 'ph', 'inflight')
            v = ext(*IM)
        elif m == 'get_mail':
            self.put(st, 'ph', 'read')
            v = ('O', self.item(x), MAIL)
        elif m == 'send':
            self.put(st, 'ph', 'delivered')
            v = UNIT
        elif m == 'send_done':
            self.put(st, 'ph', None)
            v = UNIT
        elif m == 'send_cancel':
            self.put(st, 'ph', None)
            self.put(st, 'due', 'qm')
            self.put(st, 'bad', None)
            v = ext(*QM)
        res.append((st, OK(READY(v))))
        return res

    def item(self, x):
        T = self.prog.types
        try:
            a = T[x.dty]['v'][0]['f'][0]['t']
            return T[a]['v'][0]['f'][0]['t']
        except (KeyError, IndexError, TypeError):
            return None

    def idle(self, x, st, when):
        due, ph = self.due(st), self.ph(st)
        where, stack = (str(x.span), x.ip.where(st)) if x is not None else self.at_end
        ok = True
        if due is not None:
            ok = self.ctx.ob('a mail found in flight is put back' if due.startswith('fim') else 'a mail that is queued or put back gets a sending attempt', False, where, '%s %s' % (DUE[due], when), stack)
        if ph not in (None, 'unread'):
            ok = self.ctx.ob('an attempt goes through to its end', False, where, '%s %s' % (OPEN[ph], when), stack)
        if ok:
            self.ctx.ob('a mail is settled before the next', True)
        return ok

    # ---- tasks
    def carries(self, st, v, seen=None):
        """does the value hold a mail, or an operation on one"""
        seen = set() if seen is None else seen
        if not isinstance(v, tuple) or not v:
            return False
        if v[0] == 'R':
            k = (v[1], v[2])
            if k in seen or v[1][0] == 'L' and str(v[1][2]).startswith('svc'):
                return False
            seen.add(k)
            try: return self.carries(st, st.load(v[1], v[2]), seen)
            except Unsupported: return True
        if v[0] == 'N' and v[1] == 'box':
            if v[2][0] in seen: return False
            seen.add(v[2][0])
            return self.carries(st, st.loadcell(v[2][0]), seen)
        if v[0] == 'O':
            return v[2] in (QM, IM, FIM, MAIL) or isinstance(v[2], tuple) and v[2][0] == 'xf'
        if v[0] in ('A', 'N', 'V', 'D'):
            return any(self.carries(st, y, seen) for y in v[1:] if isinstance(y, tuple)) or \
                any(self.carries(st, z, seen) for y in v[1:] if isinstance(y, tuple) for z in y if isinstance(z, tuple))
        return False

    def spawn(self, x):
        st = x.st
        v = x.a[-1]
        b = st.copy()
        if self.carries(st, v):
            if self.ph(st) is not None:
                self.put(st, 'moved', self.ph(st))
            self.put(st, 'due', None)
            self.put(st, 'ph', None)
        else:
            self.put(b, 'due', None)
            self.put(b, 'ph', None)
        # the task, alone
        fr = b.frames[0]
        for k in [k for k in b.mem if k[0] == 'L' and not str(k[2]).startswith('svc')]:
            del b.mem[k]
        b.mem[('L', 0, 'task')] = v
        for k in ('ls', 'fi', 'main', 'wait', 'bad', 'moved'):
            b.gh.pop(k, None)
        b.gh['spawned'] = TRUE
        b.frames = (fr[:1] + ('loop',) + fr[2:],)
        b.entry = True
        r = ('A', x.dty, 0, (UNIT,)) if x.dty is not None and self.prog.types[x.dty].get('k') == 'adt' else UNIT
        return [(b, PUSHED), (st, r)]

    def poll_value(self, ip, st, cell, stage):
        v = st.load(cell, ())
        path = ()
        for _ in range(10):
            if v[0] == 'N' and v[1] == 'box':
                cell, path = v[2][0], ()
            elif v[0] == 'R':
                cell, path = v[1], v[2]
            else:
                break
            v = st.load(cell, path)
        if v[0] == 'O' and isinstance(v[2], tuple) and v[2][0] in ('xf', 'xs', 'delay'):
            class X: pass
            x = X()
            x.st, x.ip, x.span, x.dty = st, ip, self.root.span, None
            out = []
            for s2, r in self.poll_ext(x, st, v[2]):
                s2.mem[('L', 0, 'ret')] = r
                out.append(self.at(s2, stage))
            return out
        b = self.prog.wit.get((v[1], 'Future', 'poll')) if v[0] == 'A' else None
        if b is None:
            raise Unsupported('polling %s' % show(v)[:80])
        return [self.go(ip, st, self.prog.bodies[b], [('R', cell, path)], stage)]

    def client(self, ip, st, stage):
        if stage == 'start':
            args = []
            for i in range(self.root.argc):
                t = self.prog.types[self.root.locals[i + 1]]
                if t['k'] == 'adt' and t['p'].endswith('::Arc') or t['k'] == 'ref':
                    # storage and transport: their types tell which (there is one value of each)
                    st.mem[('L', 0, 'svc%d' % i)] = ext('service', ('nr', i))
                    args.append(('R', ('L', 0, 'svc%d' % i), ()))
                else:
                    args.append(ext(*QM))
            return [self.go(ip, st, self.root, args, 'built')]
        if stage == 'built':
            st.mem[('L', 0, 'task')] = st.mem.pop(('L', 0, 'ret'))
            return [self.at(st, 'loop')]
        if stage == 'loop':
            st.gh.pop('wait', None)
            return self.poll_value(ip, st, ('L', 0, 'task'), 'polled')
        r = st.mem.pop(('L', 0, 'ret'))
        ok = st.variant_of(r) == 0
        if ok:
            a = st.proj(st.proj(r, ('d', 0)), ('f', 0, None))
            if st.variant_of(a) == 1:
                self.ctx.ob('a task waits only for storage, transport or timer', 'wait' in st.gh, self.root.span, 'a task reports "not ready" although nothing it asked is', [self.root.path])
                return [self.at(st, 'loop')]
        # the task ended
        self.at_end = (self.root.span, [self.root.path])
        if 'spawned' not in st.gh:
            # (nobody sees how a spawned task ended)
            what = 'start-up' if 'main' in st.gh else 'a sending attempt'
            bad = st.gh['bad'][1] if 'bad' in st.gh else None
            if ok:
                self.ctx.ob('%s that reports success had no failing operation' % what, bad is None, self.root.span, '%s reports success although %s failed' % (what, bad), [self.root.path])
                ph = self.ph(st) or (st.gh['moved'][1] if 'moved' in st.gh else None)
                self.ctx.ob('%s that reports success settled its mail' % what, ph is None, self.root.span, '%s reports success although the mail is not settled: %s' % (what, OPEN.get(ph, ph)), [self.root.path])
            else:
                self.ctx.ob('%s that reports failure had a failing operation' % what, bad is not None, self.root.span, '%s reports failure although no storage operation failed' % what, [self.root.path])
        self.idle(None, st, 'when its task ended')
        if 'main' in st.gh:
            ls = st.gh['ls'][1] if 'ls' in st.gh else None
            fi = st.gh['fi'][1] if 'fi' in st.gh else None
            self.ctx.ob('start-up goes through the whole queue', ls in ('end', 'err'), self.root.span, 'start-up ends before the queue was listed to its end', [self.root.path])
            if ls == 'end':
                self.ctx.ob('start-up goes through all mails in flight', fi in ('end', 'err'), self.root.span, 'start-up ends before all mails in flight were taken up', [self.root.path])
        return []

def drive(ctx, name, due, main):
    b = ctx.root(name, 'smtp_queue')
    if b is None:
        return
    env = QueueEnv(ctx.prog)
    env.root = b
    env.attempt = ctx.root('send_queued_mail', 'smtp_queue')
    ip = ctx.make(env)
    st = ip.new_state() if hasattr(ip, 'new_state') else St(ip)
    env.init(ip, st, 'start')
    if due: env.put(st, 'due', due)
    if main: env.put(st, 'main', True)
    ctx.explore(ip, [st])
    if any(a.startswith('storage, transport') for a in ctx.assumptions):
        return
    ctx.assumptions += ['storage, transport and timer operations finish at any poll, with any outcome; tasks share nothing else',
                        'tokio::spawn runs the task it is given; Instant::now() is monotone; a Delay is ready no earlier than its deadline']
    ctx.trusted.append('futures 0.1.31 combinators as compiled (interpreted from their MIR)')

@reg('C29')
def c29(ctx):
    ctx.only = lambda rule: ' that reports ' not in rule
    drive(ctx, 'send_queued_mail', 'qm', False)

@reg('C30')
def c30(ctx):
    attempt = ('an attempt goes', 'a mail is read', 'a mail is handed', 'the mail handed', 'a mail is marked as done', 'a mail handed to')
    ctx.only = lambda rule: not rule.startswith(attempt) and ' that reports ' not in rule
    drive(ctx, 'run::run', None, True)

@reg('C37')
def c37(ctx):
    ctx.only = lambda rule: ' that reports ' in rule
    drive(ctx, 'send_queued_mail', 'qm', False)
    drive(ctx, 'run::run', None, True)
