"""C14: firing schedule of periodic engines over all bounded histories."""
import itertools, __main__
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 6, 'thorough': 8}
BOUNDS = {t: 'every sequence of %d operations (step, all engines dead/alive, dt halved/doubled, time reset, wall clock period elapsed, periods changed) for each of 210 engines (step, time and wall-clock periods, their combinations, run limits, initial run, first step) present from the start, and as many added later' % d for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence driven with all engines at once; after each step the set of engines which ran is compared with the schedule'
ASSUMPTIONS = ['dt and time periods dyadic', 'the first visit counts as one of the limited executions, as the engine counts it', 'time reset is not combined with a prescribed first step', 'wall clock enters by moving the time of the last run back']
CF = []
for ip, vp, rp in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (0, 1.5, 0), (0, .5, 0), (0, .75, 0), (2, 1.5, 0), (3, .5, 0), (5, 2., 0), (0, 0, 1000.), (3, 0, 1000.), (0, 2., 1000.), (4, 3., 1000.), (6, 0, 0)):
    for nd in (-1, 0, 1, 2, 3):
        for ir in (False, True): CF.append((ip, vp, rp, nd, ir, 0))
    for nd in (-1, 2):
        for fi in (1, 3): CF.append((ip, vp, rp, nd, False, fi))
class Ref:
    def __init__(self, c): self.ip, self.vp, self.rp, self.nd, self.ir, self.fi = c; self.n = 0; self.li = 0; self.lt = 0.; self.aged = False
    def visit(self, it, t):
        if self.fi > 0 and self.n == 0:
            if it != self.fi: return False
            return self.mark(it, t)
        if it < self.li: self.n = 0                      # time was reset: start again
        if self.n == 0: self.mark(it, t); return self.ir  # first visit starts the counting
        if self.nd >= 0 and self.n >= self.nd: return False
        if self.vp > 0 and t - self.lt >= self.vp or self.ip > 0 and it - self.li >= self.ip or self.rp > 0 and self.aged: return self.mark(it, t)
        return False
    def mark(self, it, t): self.n += 1; self.li = it; self.lt = t; self.aged = False; return True
class M(Seq):
    def init(self, cfg):
        cf = [c for c in CF if cfg[0] != 'r' or not c[5]]
        m = {'c': cfg, 'cf': cf, 'it': 0, 't': 0., 'dt': .5, 'dead': False, 'e': [Ref(c) for c in cf], 'ran': set(), 'per': False, 'age': False}
        if cfg[1] == 'l': m['it'] = 7; m['t'] = 3.5
        return m
    def enabled(self, m):
        ops = [['step'], ['dead'], ['dt']]
        if m['c'][0] == 'r' and m['it']: ops.append(['rst'])
        if m['c'][0] == 'p' and not m['per']: ops.append(['per'])
        if m['c'][0] == 'p': ops.append(['age'])
        return ops
    def step(self, m, op):
        k = op[0]; m['ran'] = set()
        if k == 'step':
            if not m['dead']: m['ran'] = {i for i, e in enumerate(m['e']) if e.visit(m['it'], m['t'])}
            m['it'] += 1; m['t'] += m['dt']
        elif k == 'dead': m['dead'] = not m['dead']
        elif k == 'dt': m['dt'] = .25 if m['dt'] == .5 else .5
        elif k == 'rst': m['it'] = 0; m['t'] = 0.
        elif k == 'age':
            for e in m['e']: e.aged = True
        elif k == 'per':
            m['per'] = True
            for e in m['e']:
                if e.ip > 0: e.ip = 2
                if e.vp > 0: e.vp = 1.
        return None
    def reset(self, cfg):
        O.reset(); O.dt = .5
        if cfg[1] == 'l':
            for i in range(7): O.step()
        cf = [c for c in CF if cfg[0] != 'r' or not c[5]]
        self.e = []
        for i, c in enumerate(cf):
            e = PyRunner(command='vfran(%d)' % i, iterPeriod=c[0], virtPeriod=c[1], realPeriod=c[2], nDo=c[3], initRun=c[4], firstIterRun=c[5]); self.e.append(e)
        __main__.vfran = RAN.add
        O.engines = self.e
    def do(self, op):
        RAN.clear(); k = op[0]
        if k == 'step': O.step()
        elif k == 'dead':
            for e in self.e: e.dead = not e.dead
        elif k == 'dt': O.dt = .25 if O.dt == .5 else .5
        elif k == 'rst': O.resetTime()
        elif k == 'age':
            for e in self.e: e.realLast -= 1500
        elif k == 'per':
            for e in self.e:
                if e.iterPeriod > 0: e.iterPeriod = 2
                if e.virtPeriod > 0: e.virtPeriod = 1.
    def check(self, m):
        if RAN != m['ran']:
            i = sorted(RAN ^ m['ran'])[0]
            return 'engine (iterPeriod,virtPeriod,realPeriod,nDo,initRun,firstIterRun)=%s %s at step %d, time %g' % (m['cf'][i], 'ran' if i in RAN else 'did not run', m['it'] - 1, m['t'] - m['dt'])
        if O.iter != m['it'] or abs(O.time - m['t']) > 1e-12: return 'step %d, time %g; expected %d, %g' % (O.iter, O.time, m['it'], m['t'])
    def key(self, m): return repr((m['c'], m['it'], m['t'], m['dead'], sorted(m['ran']), [(e.n, e.li) for e in m['e'][::7]]))
    def outcome(self, m): return repr(sorted(m['ran']))
S = M()
def jobs(tier): return prefixes(S, 2, ['p0', 'pl', 'r0', 'rl'])
def setup():
    global O, PyRunner, RAN
    from yade.wrapper import PyRunner
    RAN = set(); O = load()
def run(job, ctx): S.run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): S.replay_path(ctx, case[0], case[1])
