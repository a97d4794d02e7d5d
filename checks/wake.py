"""C36: whatever waits can be woken. A stream operation, or a future of this library, answers "not ready" only if
in that very poll something it was asked to wait for (the stream or the output underneath) answered "not ready" to
the task's own context, or if it woke the task itself. A task for which neither holds sleeps for ever.

The clients are those of the other stream checks; what is judged here is every poll that answers "not ready" and
every suspension point of an async function."""
from checks.registry import reg
from checks.base import *
from checks import streams, session
from checks.streams import *
from models import own_context

class Wake(object):
    """mixed into a client: gh['asleep'] while the task is to be woken by something"""
    def call(self, x):
        out = super().call(x)
        if out is None or not (is_poll(x) or is_sink(x) and x.m.startswith('poll_')):
            return out
        own = own_context(x.st, x.a[1])
        res = []
        for s, v in out:
            s.gh.pop('asleep', None)
            if v == PENDING and own:
                s.gh['asleep'] = TRUE
            res.append((s, v))
        return res

    def event(self, ip, st, name, data):
        if name == 'wake':
            st.gh['asleep'] = TRUE
        elif name == 'yield':
            st.frames and self.slept(st, ip.where(st))

    def client(self, ip, st, stage):
        v = st.mem.get(('L', 0, 'ret'))
        if stage in self.polls and v is not None and st.variant_of(v) == 1:
            self.slept(st, [self.polls[stage](self).path])
        st.gh.pop('asleep', None)
        return super().client(ip, st, stage)

    def slept(self, st, site):
        self.wake.ob('waits only for what will wake it', 'asleep' in st.gh, site[-1] if site else '', 'answers "not ready" although nothing will wake the task', site)

class Quiet(object):
    """stands in for the check of the client itself, which is not the one asked for"""
    def __init__(self, ctx):
        self.__dict__['c'] = ctx
    def __getattr__(self, n):
        return getattr(self.c, n)
    def __setattr__(self, n, v):
        setattr(self.c, n, v)
    def make(self, env, budget=None):
        ip = self.c.make(env, budget)
        env.ctx = self
        return ip
    def ob(self, *a, **k):
        pass

@reg('C36')
def c36(ctx):
    def under(kind, polls):
        class K(Wake, kind):
            pass
        K.polls, K.wake = polls, ctx
        return K
    q = Quiet(ctx)
    jobs = [
        lambda: pushing(q, under(PrependEnv, {'polled': lambda e: e.poll})),
        lambda: cutting(q, under(LineEnv, {'polled': lambda e: e.poll})),
        lambda: sending(q, under(SendEnv, {})),
        lambda: session.replies(q, under(session.ReplyEnv, {})),
    ]
    for j in jobs:
        j()
    decode(q, under(DecodeEnv, {'polled': lambda e: e.poll, 'repolled': lambda e: e.poll, 'rest': lambda e: e.ppoll}))
