import os, time
from env import *
from machine import Interp
from prog import Unsupported

class Ctx:
    """one run of one check"""
    def __init__(self, prog, pid, tier, repo):
        self.prog, self.pid, self.tier, self.repo = prog, pid, tier, repo
        self.violations = []
        self.known = set()      # keys of listed findings
        self.keys = set()
        self.obligations = 0
        self.discharged = 0
        self.rules = {}
        self.incomplete = {}
        self.assumptions = []
        self.level = 'proof'
        self.funcs = set()
        self.guards = set()     # checks of the program (assertions, bounds, arithmetic) that every path reaching them passes
        self.stats = {}
        self.notes = {}
        self.samples = []
        self.trusted = ['rustc front end (type and borrow checker, MIR construction)', 'driver/ (MIR dump)',
                        'engine/ (abstract interpreter)']
        self.t0 = time.time()
        self.only = None        # the rules that belong to this property, where an analysis serves several

    # -- obligations
    def ob(self, rule, ok, where='', msg='', stack=(), key=None):
        if self.only is not None and not self.only(rule):
            return ok
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if ok:
            self.discharged += 1
            return True
        self.viol(rule, where, msg, stack, key)
        return False

    def viol(self, rule, where, msg, stack=(), key=None):
        stack = list(stack)
        key = key or '%s|%s' % (rule, '>'.join(stack[-2:]) if stack else where)
        k = (rule, where, msg)
        if k not in self.keys:
            self.keys.add(k)
            self.violations.append(dict(rule=rule, where=where, msg=msg, stack=stack, key=key))

    def note(self, k, v):
        self.notes[k] = v

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    # -- engine
    def make(self, env, budget=None):
        ip = make(self.prog, env)
        env.ctx = self
        env.ip = ip
        ip.enough = lambda: len(self.fresh()) >= 3
        ip.deadline = self.t0 + (budget or 500)
        return ip

    def explore(self, ip, inits):
        terms = ip.explore(inits)
        self.collect(ip)
        return terms

    def parallel(self, items, f):
        """f(item) for every item, each in an own process; what each recorded is added up here"""
        import multiprocessing as mp
        global _job
        _job = (self, f, items)
        n = min(len(items), os.cpu_count() or 1, 8)
        with mp.get_context('fork').Pool(n, maxtasksperchild=1) as pool:
            for r in pool.imap(_work, range(len(items)), chunksize=1):
                self.merge(r)
                if self.fresh():
                    break

    def fresh(self):
        """violations that no listed finding accounts for"""
        return [v for v in self.violations if v['key'] not in self.known]

    def export(self):
        return dict(violations=self.violations, obligations=self.obligations, discharged=self.discharged, rules=self.rules,
                    incomplete=self.incomplete, funcs=self.funcs, guards=self.guards, stats=self.stats, notes=self.notes, samples=self.samples)

    def merge(self, r):
        self.obligations += r['obligations'] - len(r['violations'])
        self.discharged += r['discharged']
        for k, v in r['rules'].items():
            self.rules[k] = self.rules.get(k, 0) + v
        for v in r['violations']:
            k = (v['rule'], v['where'], v['msg'])
            if k not in self.keys:
                self.keys.add(k)
                self.violations.append(v)
                self.obligations += 1
        self.funcs |= r['funcs']
        self.guards |= r['guards']
        for k, v in r['stats'].items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in r['incomplete'].items():
            self.incomplete.setdefault(k, v)
        self.notes.update(r['notes'])
        for x in r['samples']:
            self.sample(x)

    def collect(self, ip):
        self.funcs |= ip.funcs
        self.guards |= ip.guards
        for k, v in ip.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in ip.incomplete.items():
            self.incomplete.setdefault(k, v)
        for v in ip.violations:
            self.ob(v.rule, False, v.where, v.msg, v.stack, v.key)

    def root(self, suffix, crate=None):
        r = self.prog.find_root(suffix, crate)
        if not r:
            self.incomplete.setdefault('no function ' + suffix, [])
            return None
        return self.prog.bodies[r[0]['body']]

    def coverage(self):
        local = sorted(set(self.prog.bodies[f].path for f in self.funcs if self.prog.bodies[f].local))
        c = dict(obligations=self.obligations, discharged=self.discharged,
                 checker_cmd='python3 /verif/check.py %s' % self.pid, trusted_base=self.trusted,
                 rules=self.rules, functions_analysed=local, samples=self.samples)
        ext = [f for f in self.funcs if not self.prog.bodies[f].local]
        if self.funcs:
            c['library_functions_analysed'] = len(ext)
        if self.stats:
            c['abstract_states'] = self.stats.get('states', 0)
            c['mir_blocks_executed'] = self.stats.get('blocks', 0)
            c['terminal_states'] = self.stats.get('terminals', 0)
        if self.incomplete:
            c['unexplored'] = {k: ' > '.join(v) for k, v in self.incomplete.items()}
        c.update(self.notes)
        return c


_job = None

def _work(i):
    ctx, f, items = _job
    c = ctx
    c.violations, c.keys, c.obligations, c.discharged, c.rules = [], set(), 0, 0, {}
    c.incomplete, c.funcs, c.guards, c.stats, c.notes, c.samples = {}, set(), set(), {}, {}, []
    try:
        f(items[i])
    except Exception as e:
        c.incomplete['internal error: %s: %s' % (type(e).__name__, e)] = ''
    return c.export()
