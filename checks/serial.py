"""C28: write errors are reported by every serialiser"""
from checks.registry import reg
from checks.base import *
import lin
from interp import *
from models import *

class FailEnv(IoEnv):
    failing = True
    def emit(self, st, data):
        pass        # what is written is the subject of other checks
    def after_failure(self, x):
        self.ctx.ob('nothing is written after a failed write', False, str(x.span), 'output used again after a write failed', x.ip.where(x.st))
    def terminal(self, ip, st):
        ctx = self.ctx
        b = self.body
        var = st.variant_of(st.ret)
        f = st.gh.get('failed')
        if f:
            ok = var == 1
            ctx.ob('a failed write makes the call fail', ok, b.span, 'success is returned although a write failed', [b.path])
            if ok:
                e = st.proj(st.proj(st.ret, ('d', 1)), ('f', 0, None))
                ctx.ob('the error returned is the error of the write', e[0] == 'O' and e[2] == f[1], b.span,
                       'another error is returned: %s' % show(e)[:60], [b.path])
        else:
            ctx.ob('success means everything was written', var != 0 or 'owed' not in st.gh, b.span,
                   'a short write is taken for a complete one', [b.path])
            ctx.ob('no error without a failed write', var == 0 or self.may_fail, b.span, 'an error is returned although no write failed', [b.path])
    may_fail = False

def serialisers(prog, crate='smtp_message'):
    """functions that take an output and return io::Result<()>"""
    out = []
    for b in prog.bodies:
        if not b.local or b.kind != 'fn' or b.crate != crate:
            continue
        for i in range(1, b.argc + 1):
            t = prog.types[b.locals[i]]
            if t['k'] == 'ref' and t['mut'] and prog.types[t['e']]['k'] in ('dyn', 'param') and 'Write' in bound_of(prog, b, t):
                out.append((b, i))
                break
    return out

def bound_of(prog, b, t):
    e = prog.types[t['e']]
    if e['k'] == 'dyn':
        return e['s']
    # a type parameter: does the body write to it?
    for blk in b.blocks:
        if blk[1][0] == 'call':
            c = prog.fns[blk[1][1]]
            if (c.get('trait') or '') == 'std::io::Write':
                return 'Write'
    return ''

@reg('C28')
def c28(ctx):
    n = 0
    for b, w in serialisers(ctx.prog):
        rt = ctx.prog.types[b.locals[0]]
        if not (rt.get('k') == 'adt' and rt['p'].endswith('Result')):
            ctx.ob('a serialiser can report errors', False, b.span, 'the result of %s cannot carry a write error' % b.path, [b.path])
            continue
        n += 1
        env = FailEnv(ctx.prog)
        ip = ctx.make(env)
        env.body = b
        st = ip.new_state()
        args = []
        for i in range(1, b.argc + 1):
            t = ctx.prog.types[b.locals[i]]
            if i == w:
                args.append(('O', b.locals[i], ('writer', 0)))
            elif t['k'] == 'ref' and not t['mut']:
                args.append(('V', st.opaque(t['e'], ('arg', -i))))
            else:
                args.append(st.opaque(b.locals[i], ('arg', -i)))
        ip.push(st, b.id, args, None, None)
        ctx.explore(ip, [st])
    ctx.note('serialisers', n)
    ctx.ob('there are serialisers', n > 0, 'smtp-message', 'no serialiser found')
