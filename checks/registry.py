CHECKS = {}
def reg(pid):
    def f(g):
        CHECKS[pid] = g
        return g
    return f
from checks import reply, serial, structure, window, streams, session, grammar, parse, wire, queue, local, values, wake
