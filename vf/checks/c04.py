"""C04: the force container over all histories of additions, permanent loads, displacements, resets, steps and growth."""
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 4, 'thorough': 5}
BOUNDS = {t: 'every sequence of %d operations (add force/torque, set permanent force/torque, add move/rotation, reset, reset including permanent loads, synchronised read-out, step with the force resetter, growth of the scene) on three target bodies, for a scene of 3 bodies and one of 300 bodies with widely spaced ids' % d for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence; the unsynchronised read-out of every target is compared after each operation, the synchronised one as an operation and at the end'
ASSUMPTIONS = ['values are dyadic, so sums are exact', 'contributions made by one thread (several threads: C16)']
CFG = {'small': (3, (0, 1, 2)), 'sparse': (300, (0, 130, 299))}
class M(Seq):
    def init(self, cfg):
        n, ids = CFG[cfg]
        return {'cfg': cfg, 'n': n, 'ids': list(ids), 'v': {i: [[0.] * 3 for _ in range(6)] for i in ids}, 'k': 0, 'app': 0}
    def enabled(self, m):
        ids = m['ids']; ops = []
        for i in ids: ops += [['F', i], ['pF', i]]
        ops += [['T', ids[-1]], ['pT', ids[0]], ['pT', ids[-1]], ['mv', ids[1]], ['rt', ids[-1]], ['rs'], ['rsA'], ['sy'], ['step']]
        if m['app'] < 1: ops.append(['app'])
        return ops
    def val(self, k): return [1. + k, .5 * k - 4, 2. ** -k]
    def step(self, m, op):
        k = op[0]; m['k'] += 1; x = self.val(m['k'])
        ix = {'F': 0, 'T': 1, 'pF': 2, 'pT': 3, 'mv': 4, 'rt': 5}
        if k in ('F', 'T', 'mv', 'rt'):
            v = m['v'][op[1]][ix[k]]
            for a in range(3): v[a] += x[a]
        elif k in ('pF', 'pT'): m['v'][op[1]][ix[k]] = x
        elif k in ('rs', 'step', 'rsA'):
            for v in m['v'].values():
                for q in (0, 1, 4, 5): v[q] = [0.] * 3
                if k == 'rsA': v[2] = [0.] * 3; v[3] = [0.] * 3
        elif k == 'app':
            m['app'] += 1; i = m['n'] + (0 if m['cfg'] == 'small' else 199); m['n'] = i + 1; m['ids'].append(i); m['v'][i] = [[0.] * 3 for _ in range(6)]
        elif k == 'sy': return self.synced(m)
        return None
    def synced(self, m): return [[i, [a + b for a, b in zip(v[0], v[2])], [a + b for a, b in zip(v[1], v[3])], list(v[2]), list(v[3]), list(v[4]), list(v[5])] for i, v in sorted(m['v'].items())]
    def reset(self, cfg):
        O.reset(); self.ids = list(CFG[cfg][1]); self.k = 0; self.cfg = cfg
        O.bodies.append([Body() for _ in range(CFG[cfg][0])]); O.engines = [ForceResetter()]; O.dt = 1e-3
    def do(self, op):
        k = op[0]; self.k += 1; x = self.val(self.k); F = O.forces
        if k == 'F': F.addF(op[1], x)
        elif k == 'T': F.addT(op[1], x)
        elif k == 'pF': F.setPermF(op[1], x)
        elif k == 'pT': F.setPermT(op[1], x)
        elif k == 'mv': F.addMove(op[1], x)
        elif k == 'rt': F.addRot(op[1], x)
        elif k == 'rs': F.reset(False)
        elif k == 'rsA': F.reset(True)
        elif k == 'step': O.step()
        elif k == 'app':
            self.ids.append(O.bodies.append([Body() for _ in range(1 if self.cfg == 'small' else 200)])[-1])
        elif k == 'sy': return self.dump()
        return None
    def dump(self):
        F = O.forces; L = lambda v: [float(c) for c in v]
        return [[i, L(F.f(i, True)), L(F.t(i, True)), L(F.permF(i)), L(F.permT(i)), L(F.move(i)), L(F.rot(i))] for i in sorted(self.ids)]
    def check(self, m):
        F = O.forces; L = lambda v: [float(c) for c in v]
        for e in self.synced(m):
            i = e[0]; got = [i, L(F.f(i)), L(F.t(i)), e[3], e[4], L(F.move(i)), L(F.rot(i))]
            if got != e: return 'body %d reads force,torque,_,_,move,rot %s, expected %s' % (i, got[1:], e[1:])
        n = m['n']
        for bad in (-1, n):
            try: F.f(bad); return 'force of id %d did not raise' % bad
            except IndexError: pass
    def final(self, m):
        got = self.dump(); exp = self.synced(m)
        if got != exp: return 'synchronised read-out %s, expected %s' % (got, exp)
    def key(self, m): return repr((m['cfg'], m['v']))
    def outcome(self, m): return ''.join('.' if not any(any(q) for q in v) else 'x' for v in m['v'].values())
def jobs(tier): return prefixes(M(), 2, ['small', 'sparse'])
def setup():
    global O, Body, ForceResetter
    from yade.wrapper import ForceResetter, Body
    O = load()
def run(job, ctx): M().run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): M().replay_path(ctx, case[0], case[1])
