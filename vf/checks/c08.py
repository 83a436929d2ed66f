"""C08: the engine loop: which engines run, in which order, what happens to step number, time and cell, over all histories of
steps, sub-steps, switching of sub-stepping, (de)activation and replacement of engines from outside and from inside of the
loop, change of the time step, reset of time, background runs with stop conditions."""
from vf.seq import Seq, prefixes
from vf.yd import *
import time as _time, __main__
LEVEL = 'model_checking'
DEPTH = {'quick': 5, 'thorough': 6}
BOUNDS = {t: 'every sequence of %d operations (step or sub-step, sub-stepping on/off, engine dead on/off, engines replaced from outside by 2 lists, by an engine from inside the loop, dt changed, time reset, background run of 2 steps, background run until a time) for a periodic scene under constant velocity gradient and an aperiodic scene with timing on' % d for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence; after each operation the engines run, step, time, sub-step, engine lists, cell and execution counts are compared with the reference loop'
ASSUMPTIONS = ['engines are Python runners which log their label', 'dt is dyadic']
LISTS = [['A', 'B', 'C'], ['D', 'B'], ['C']]
class M(Seq):
    def init(self, cfg):
        return {'c': cfg, 'eng': list(LISTS[0]), 'next': None, 'dead': [], 'iter': 0, 't': 0., 'dt': .5, 'sub': -1, 'ss': False, 'arm': None, 'cell': 1., 'log': [], 'n': {}, 'run': 0, 'sat': 0., 'sai': 0}
    def enabled(self, m):
        ops = [['step'], ['ss', not m['ss']], ['eng', 1], ['eng', 2], ['dead', 'B'], ['dt', .25 if m['dt'] == .5 else .5]]
        if m['arm'] is None: ops += [['arm', 1], ['arm', 0]]
        if m['run'] < 2: ops += [['run', 2], ['runT', 1]]
        if m['iter']: ops.append(['rst'])
        if 'C' in (m['next'] or m['eng']): ops.append(['dead', 'C'])
        return ops
    # --- reference loop
    def prologue(self, m):
        if m['c'] == 'per': m['cell'] += .125 * m['dt'] * m['cell']
    def engine(self, m, e):
        if e in m['dead']: return
        m['log'].append(e); m['n'][e] = m['n'].get(e, 0) + 1
        if e == 'B' and m['arm'] is not None: m['next'] = list(LISTS[m['arm']]); m['arm'] = None
    def epilogue(self, m): m['iter'] += 1; m['t'] += m['dt']; m['sub'] = -1
    def take(self, m):
        if m['next'] is not None: m['eng'] = m['next']; m['next'] = None
    def one(self, m):
        if m['ss']:
            if m['sub'] < 0: self.take(m)
            s = m['sub']
            if s == -1: self.prologue(m); m['sub'] = 0
            elif s < len(m['eng']): self.engine(m, m['eng'][s]); m['sub'] = s + 1
            else: self.epilogue(m)
        else:
            s = m['sub']
            if s <= 0: self.take(m)
            if s == -1: self.prologue(m); s = 0
            for e in list(m['eng'][s:]): self.engine(m, e)
            self.epilogue(m)
    def step(self, m, op):
        m['log'] = []; k = op[0]
        if k == 'step': self.one(m)
        elif k == 'ss': m['ss'] = op[1]
        elif k == 'eng':
            if m['sub'] < 0: m['eng'] = list(LISTS[op[1]]); m['next'] = m['next']
            else: m['next'] = list(LISTS[op[1]])
        elif k == 'arm': m['arm'] = op[1]
        elif k == 'dead': m['dead'] = [x for x in m['dead'] if x != op[1]] if op[1] in m['dead'] else m['dead'] + [op[1]]
        elif k == 'dt': m['dt'] = op[1]
        elif k == 'rst': m['iter'] = 0; m['t'] = 0.
        elif k in ('run', 'runT'):
            m['run'] += 1; m['ss'] = False
            if k == 'run': m['sai'] = m['iter'] + op[1]
            else: m['sai'] = 0; m['sat'] = m['t'] + 1.3
            while 1:
                t0 = m['t']; self.one(m)
                if m['sai'] > 0 and m['iter'] == m['sai'] or t0 < m['sat'] <= m['t']: break
        return None
    # --- the real thing
    def reset(self, cfg):
        O.reset(); O.dt = .5; O.timingEnabled = cfg == 'tim'
        for s in list(LOG): LOG.clear()
        if cfg == 'per': O.periodic = True; O.cell.hSize = Matrix3(1, 0, 0, 0, 1, 0, 0, 0, 1); O.cell.homoDeform = 0; O.cell.velGrad = Matrix3(.125, 0, 0, 0, 0, 0, 0, 0, 0); O.engines = [NewtonIntegrator(warnNoForceReset=False)]; O.step(); O.resetTime()
        self.e = {k: PyRunner(command="vflog(%r)" % k, iterPeriod=1, initRun=True, label='vf' + k) for k in 'ABCD'}
        __main__.vflog = self.ran; self.arm = None
        O.engines = [self.e[x] for x in LISTS[0]]
    def ran(self, k):
        LOG.append(k)
        if k == 'B' and self.arm is not None: a = self.arm; self.arm = None; O.engines = [self.e[x] for x in LISTS[a]]
    def do(self, op):
        LOG.clear(); k = op[0]
        if k == 'step': O.step()
        elif k == 'ss': O.subStepping = op[1]
        elif k == 'eng': O.engines = [self.e[x] for x in LISTS[op[1]]]
        elif k == 'arm': self.arm = op[1]
        elif k == 'dead': self.e[op[1]].dead = not self.e[op[1]].dead
        elif k == 'dt': O.dt = op[1]
        elif k == 'rst':
            O.resetTime()
            for e in self.e.values(): e.nDone = 0   # (periodic engines and time reset: C14)
        else:
            if k == 'run': O.run(op[1])
            else: O.stopAtIter = 0; O.stopAtTime = O.time + 1.3; O.run()
            t0 = _time.time()
            while O.running:
                _time.sleep(.0003)
                if _time.time() - t0 > 5: O.pause(); raise RuntimeError('the run did not stop, O.iter=%d' % O.iter)
    def check(self, m):
        a = dict(log=list(LOG), iter=O.iter, time=O.time, sub=O.subStep, ss=O.subStepping, eng=[e.label[2:] for e in O._currEngines], shown=[e.label[2:] for e in O.engines], dt=O.dt)
        b = dict(log=m['log'], iter=m['iter'], time=m['t'], sub=m['sub'], ss=m['ss'], eng=m['eng'], shown=m['next'] or m['eng'], dt=m['dt'])
        if a != b: return 'observed %s, expected %s' % ({k: a[k] for k in a if a[k] != b[k]}, {k: b[k] for k in a if a[k] != b[k]})
        if m['c'] == 'per' and abs(O.cell.hSize[0, 0] - m['cell']) > 1e-12: return 'cell size %r, expected %r' % (O.cell.hSize[0, 0], m['cell'])
        if m['c'] == 'tim' and O.timingEnabled:
            c = {k: self.e[k].execCount for k in self.e if self.e[k].execCount}
            if c != m['n']: return 'execution counts %s, expected %s' % (c, m['n'])
    def key(self, m): return repr([m[k] for k in ('c', 'eng', 'next', 'dead', 'sub', 'ss', 'arm', 'iter', 't')])
    def outcome(self, m): return repr([m[k] for k in ('eng', 'iter', 'sub')])
S = M()
def jobs(tier): return prefixes(S, 2, ['per', 'tim'])
def setup():
    global O, PyRunner, NewtonIntegrator, LOG, Matrix3
    from minieigen import Matrix3
    from yade.wrapper import PyRunner, NewtonIntegrator
    LOG = []; O = load()
def run(job, ctx): S.run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): S.replay_path(ctx, case[0], case[1])
