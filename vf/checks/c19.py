"""C19: engines which prescribe motions and loads, over all bounded histories."""
import math
import numpy as np
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 4, 'thorough': 5}
BOUNDS = {t: 'every sequence of %d operations (step, dt changed, time reset, bodies moved, listed body erased, body appended, parameters changed, list of bodies changed, engines dead/alive, mask of a body changed, save+load) on 25 engines, each with its own 7 bodies (spheres, box, clump, body outside of its list)' % d for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence driven with all engines at once; after each operation velocities, positions, orientations, forces and torques of all bodies, and the accumulators of the engines, are compared with the documented formula'
ASSUMPTIONS = ['no integrator: engines act on given positions and velocities', 'central body of CentralGravityEngine is not erased', 'agreement to 1e-10 (relative to the largest value)']
A = lambda *x: np.array(x, float)
def unit(v): n = math.sqrt(float(v @ v)); return v / n if n else v * 0
def qrot(axis, ang):
    n = unit(axis); K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]); return np.eye(3) + math.sin(ang) * K + (1 - math.cos(ang)) * K @ K
def interp(t, tt, vv, wrap):
    if wrap: t = tt[0] + (t - tt[0]) % (tt[-1] - tt[0])
    if t <= tt[0]: return vv[0]
    if t >= tt[-1]: return vv[-1]
    for i in range(len(tt) - 1):
        if tt[i] <= t <= tt[i + 1]: return vv[i] + (vv[i + 1] - vv[i]) * (t - tt[i]) / (tt[i + 1] - tt[i])
# a group: class, parameters, parameters after 'par', class of reference
AX, ZP = A(1, -2, .5), A(.3, .2, -.7)
G = [('TranslationEngine', dict(velocity=.7, translationAxis=AX), dict(velocity=-1.3)), ('HarmonicMotionEngine', dict(A=A(.1, .2, 0), f=A(1.3, .4, 2), fi=A(.1, .9, 0)), dict(A=A(0, .3, .4))),
     ('RotationEngine', dict(angularVelocity=1.1, rotationAxis=AX), dict(angularVelocity=-.4)), ('RotationEngine', dict(angularVelocity=1.1, rotationAxis=AX, rotateAroundZero=True, zeroPoint=ZP), dict(zeroPoint=A(1, 1, 1))),
     ('HelixEngine', dict(angularVelocity=.9, rotationAxis=AX, linearVelocity=.6, zeroPoint=ZP), dict(linearVelocity=-.2)), ('InterpolatingHelixEngine', dict(times=[.3, .6, 1.2], angularVelocities=[.5, 2, -1.], slope=.25, rotationAxis=AX, zeroPoint=ZP, wrap=False), dict(slope=.5)),
     ('InterpolatingHelixEngine', dict(times=[.2, .5, .9], angularVelocities=[1., 3, -2.], slope=-.25, rotationAxis=AX, wrap=True), dict(slope=.5)), ('HarmonicRotationEngine', dict(A=.3, f=1.7, fi=.4, rotationAxis=AX), dict(f=.6)), ('HarmonicRotationEngine', dict(A=.3, f=1.7, fi=.4, rotationAxis=AX, rotateAroundZero=True, zeroPoint=ZP), dict(A=.6)),
     ('BicyclePedalEngine', dict(angularVelocity=2.1, rotationAxis=AX, radius=.6, fi=.2), dict(radius=.9)), ('Comb', dict(), dict(dead=1)), ('ForceEngine', dict(force=A(1, 2, -3)), dict(force=A(0, -1, 4))), ('TorqueEngine', dict(moment=A(1, 2, -3)), dict(moment=A(0, -1, 4))),
     ('InterpolatingDirectedForceEngine', dict(times=[.3, .6, 1.2], magnitudes=[5., -2, 8], direction=AX, wrap=False), dict(magnitudes=[1., 7, 3])), ('InterpolatingDirectedForceEngine', dict(times=[.1, .3, .8], magnitudes=[5., -2, 8], direction=AX, wrap=True), dict(direction=A(0, 1, 1))),
     ('RadialForceEngine', dict(axisPt=ZP, axisDir=AX, fNorm=3.), dict(fNorm=-1.)), ('DragEngine', dict(Rho=1.5, Cd=.6), dict(Cd=.3)), ('LinearDragEngine', dict(nu=.7), dict(nu=.2)), ('GravityEngine', dict(gravity=A(1, -2, -9)), dict(gravity=A(0, 0, 5))),
     ('CentralGravityEngine', dict(accel=2.5, reciprocal=False), dict(accel=1.)), ('CentralGravityEngine', dict(accel=2.5, reciprocal=True), dict(accel=1.)), ('AxialGravityEngine', dict(axisPoint=ZP, axisDirection=AX, acceleration=2.2), dict(acceleration=-1.)),
     ('StepDisplacer', dict(mov=A(.1, -.2, .05), ax=A(1, 1, 0), an=.3, setVelocities=False), dict(mov=A(0, .3, 0))), ('StepDisplacer', dict(mov=A(.1, -.2, .05), ax=A(1, 1, 0), an=.3, setVelocities=True), dict(mov=A(0, .3, 0))), ('DomainLimiter', dict(lo=A(-9, -9, -9), hi=A(9, 9, 1e3)), dict(hi=A(2.5, 9, 1e3)))]
N = 7   # per group: 0 sphere, 1 sphere, 2 box, 3 4 members of clump 5, 6 sphere outside
POS = [(0, 0, 0), (2, .5, .3), (-2, 1, .7), (1, 3, 1), (1, 5, 1), (1, 4, 1), (-3, -2, 0)]
RAD = [.5, .4, None, .5, .5, None, .3]
FIELD = ('GravityEngine', 'CentralGravityEngine', 'AxialGravityEngine')
def off(g): return A(0, 0, 11 * g)
def place(k, alt): return A(*POS[k]) + (A(.9, -.4, .2) * (1 + k % 3) if alt else 0)
def speed(k, alt): return A(.3 * k + .1, -.2, .5) * (-1 if alt else 1)
class M(Seq):
    def init(self, cfg):
        m = {'t': 0., 'it': 0, 'dt': .125, 'dead': 0, 'alt': 0, 'par': 0, 'ids': 0, 'b': {}, 'e': [dict(p) for c, p, q in G], 'sv': {}, 'n': len(G) * N}
        for g in range(len(G)):
            if 'zeroPoint' in m['e'][g]: pass
            m['e'][g].update(angle=0.)
            for k in range(N): m['b'][g * N + k] = dict(g=g, k=k, x=place(k, 0) + off(g), v=speed(k, 0), w=speed(k, 1), R=np.eye(3), f=A(0, 0, 0), T=A(0, 0, 0), mk=1 if k == 6 else 1 << (g + 1))
            m['e'][g]['del'] = [0, 0., 0.]
        return m
    def enabled(self, m):
        ops = [['step'], ['dt'], ['mv'], ['par'], ['ids'], ['dead'], ['sl'], ['app']]
        if m['it']: ops.append(['rt'])
        if 0 in m['b']: ops += [['era'], ['mask']]
        return ops
    def lst(self, m, g): return [g * N + k for k in ((0, 2, 5, 1) if not m['ids'] else (6, 5, 2))]
    def step(self, m, op):
        k = op[0]; B = m['b']
        if k == 'dt': m['dt'] = .25 if m['dt'] == .125 else .125
        elif k == 'mv':
            m['alt'] = 1 - m['alt']
            for b in B.values():
                if b['k'] < N: b['x'] = place(b['k'], m['alt']) + off(b['g']); b['v'] = speed(b['k'], m['alt']); b['w'] = speed(b['k'], 1 - m['alt'])
        elif k == 'par':
            m['par'] = 1 - m['par']
            for g, (c, p, q) in enumerate(G): m['e'][g].update(q if m['par'] else {n: p.get(n, 0) for n in q})
        elif k == 'ids': m['ids'] = 1 - m['ids']
        elif k == 'dead': m['dead'] = 1 - m['dead']
        elif k == 'rt': m['t'] = 0.; m['it'] = 0
        elif k == 'era':
            for g in range(len(G)): B.pop(g * N, None)
        elif k == 'mask':
            for g in range(len(G)):
                if g * N in B: B[g * N]['mk'] = 1
        elif k == 'app':
            for g in range(len(G)): B[m['n'] + g] = dict(g=g, k=7, x=A(3, -3, .5) + off(g), v=A(0, 0, 0), w=A(0, 0, 0), R=np.eye(3), f=A(0, 0, 0), T=A(0, 0, 0), mk=1 << (g + 1))
            m['n'] += len(G)
        elif k == 'sl':   # forces are not saved
            for b in B.values(): b['f'] = A(0, 0, 0); b['T'] = A(0, 0, 0)
        elif k == 'step':
            for b in B.values(): b['f'] = A(0, 0, 0); b['T'] = A(0, 0, 0)
            if not m['dead']:
                for g in range(len(G)): self.act(m, g)
            m['it'] += 1; m['t'] += m['dt']
        return None
    def mass(self, b):
        k = b['k']
        if k == 2: return 8 * .4 * .3 * .5 * 1000
        if k == 5: return 2 * 4 / 3 * math.pi * .5 ** 3 * 1000
        return 4 / 3 * math.pi * (RAD[k] if k < N else .35) ** 3 * 1000
    def act(self, m, g):
        c = G[g][0]; e = m['e'][g]; t, dt, B = m['t'], m['dt'], m['b']; bs = [B[i] for i in self.lst(m, g) if i in B]
        def rot(om, axis, zero):
            for b in bs:
                b['w'] = b['w'] + unit(axis) * om
                if zero is not None: l = b['x'] - zero; b['v'] = b['v'] + (qrot(axis, om * dt) @ l - l) / dt
        zp = e.get('zeroPoint', A(0, 0, 0))
        if c.endswith('Engine') and c not in FIELD and 'Force' not in c and 'Drag' not in c and c != 'TorqueEngine' or c == 'Comb':
            for b in bs: b['v'] = A(0, 0, 0); b['w'] = A(0, 0, 0)
        if c == 'Comb':
            for b in bs: b['v'] = b['v'] + .4 * unit(A(0, 1, 1))
            rot(.8, A(0, 0, 2), A(1, 0, 0))
            if not m['par']:
                for b in bs: b['v'] = b['v'] - A(.2, 0, .1) * 2 * math.pi * 1.5 * math.sin(2 * math.pi * 1.5 * t + math.pi / 2)
        elif c == 'TranslationEngine':
            for b in bs: b['v'] = e['velocity'] * unit(e['translationAxis'])
        elif c == 'HarmonicMotionEngine':
            w = 2 * math.pi * e['f']
            for b in bs: b['v'] = -e['A'] * w * np.sin(w * t + e['fi'])
        elif c == 'RotationEngine': rot(e['angularVelocity'], e['rotationAxis'], zp if e.get('rotateAroundZero') else None)
        elif c == 'HarmonicRotationEngine': w = 2 * math.pi * e['f']; rot(-e['A'] * w * math.sin(w * t + e['fi']), e['rotationAxis'], zp if e.get('rotateAroundZero') else None)
        elif c in ('HelixEngine', 'InterpolatingHelixEngine'):
            om = e['angularVelocity'] if c[0] == 'H' else interp(t, e['times'], e['angularVelocities'], e['wrap']); lv = e['linearVelocity'] if c[0] == 'H' else om * e['slope']
            e['angle'] += om * dt
            for b in bs: b['v'] = lv * unit(e['rotationAxis'])
            rot(om, e['rotationAxis'], zp)
        elif c == 'BicyclePedalEngine':
            ph = e['fi'] + e['angle']; d = e['angularVelocity'] * dt; a = unit(e['rotationAxis']); z = A(0, 0, 1); q = qrot(np.cross(z, a), math.acos(a @ z))
            for b in bs: b['v'] = q @ (A(math.cos(ph) - math.cos(ph + d), math.sin(ph) - math.sin(ph + d), 0) * e['radius'] / dt)
            e['angle'] += d
        elif c == 'ForceEngine':
            for b in bs: b['f'] = b['f'] + e['force']
        elif c == 'TorqueEngine':
            for b in bs: b['T'] = b['T'] + e['moment']
        elif c == 'InterpolatingDirectedForceEngine':
            for b in bs: b['f'] = b['f'] + interp(t, e['times'], e['magnitudes'], e['wrap']) * unit(e['direction'])
        elif c == 'RadialForceEngine':
            for b in bs: d = b['x'] - e['axisPt']; n = unit(e['axisDir']); b['f'] = b['f'] + e['fNorm'] * unit(d - n * (d @ n))
        elif c == 'DragEngine':
            for b in bs:
                if b['k'] not in (2, 5): b['f'] = b['f'] - .5 * e['Rho'] * e['Cd'] * math.pi * RAD[b['k']] ** 2 * math.sqrt(b['v'] @ b['v']) * b['v']
        elif c == 'LinearDragEngine':
            for b in bs:
                if b['k'] not in (2, 5): b['f'] = b['f'] - 6 * math.pi * e['nu'] * RAD[b['k']] * b['v']
        elif c in FIELD:
            for b in B.values():
                if not b['mk'] & (1 << (g + 1)) or b['k'] == 5: continue
                M_ = self.mass(b)
                if c == 'GravityEngine': b['f'] = b['f'] + M_ * e['gravity']
                elif c == 'AxialGravityEngine': d = b['x'] - e['axisPoint']; n = unit(e['axisDirection']); b['f'] = b['f'] - e['acceleration'] * M_ * unit(d - n * (d @ n))
                else:
                    z = B[g * N + 1]
                    if b is z: continue
                    F = e['accel'] * M_ * unit(z['x'] - b['x']); b['f'] = b['f'] + F
                    if e['reciprocal']: z['f'] = z['f'] - F
        elif c == 'StepDisplacer':
            for b in bs:
                if e['setVelocities']: b['v'] = e['mov'] / dt; b['w'] = unit(e['ax']) * e['an'] / dt
                else: b['x'] = b['x'] + e['mov']; b['R'] = qrot(e['ax'], e['an']) @ b['R']
        elif c == 'DomainLimiter' and m['it'] != e.get('last'):
            e['last'] = m['it']
            for i in [i for i, b in B.items() if b['mk'] & (1 << (g + 1)) and b['k'] not in (2, 3, 4) and ((b['x'] < e['lo']).any() or (b['x'] > e['hi']).any())]:
                b = B.pop(i); e['del'][0] += 1; e['del'][1] += self.mass(b)
                if b['k'] == 5: B.pop(g * N + 3); B.pop(g * N + 4)
                else: e['del'][2] += 4 / 3 * math.pi * (RAD[b['k']] if b['k'] < N else .35) ** 3
    def make(self, g):
        c, p, q = G[g]; ids = [g * N + k for k in (0, 2, 5, 1)]
        cv = lambda v: Vector3(*V(v)) if isinstance(v, np.ndarray) else v
        if c == 'Comb': e = yw.TranslationEngine(velocity=.4, translationAxis=(0, 1, 1), ids=ids) + yw.RotationEngine(angularVelocity=.8, rotationAxis=(0, 0, 2), rotateAroundZero=True, zeroPoint=(1, 0, 0)) + yw.HarmonicMotionEngine(A=(.2, 0, .1), f=(1.5, 1.5, 1.5)); return e
        d = {n: cv(v) for n, v in p.items()}
        if c == 'StepDisplacer': a = p['ax']; d['rot'] = Quaternion(Vector3(*V(unit(a))), p['an']); del d['ax'], d['an']
        if c == 'DomainLimiter': d.update(iterPeriod=1, initRun=True)
        e = getattr(yw, c)(**d)
        if c in FIELD or c == 'DomainLimiter': e.mask = 1 << (g + 1)
        else: e.ids = ids
        if c == 'CentralGravityEngine': e.centralBody = g * N + 1
        if c == 'GravityEngine': e.warnOnce = False
        return e
    def reset(self, cfg):
        O.reset(); O.dt = .125; mt = O.materials.append(yw.FrictMat(density=1000))
        bs = []
        for g in range(len(G)):
            for k in range(N):
                if k == 5: b = yw.Body()
                elif k == 2: b = utils.box((0, 0, 0), (.4, .3, .5), material=mt)
                else: b = utils.sphere((0, 0, 0), RAD[k], material=mt)
                bs.append(b)
        for g in range(len(G)):
            o = g * N
            for k in (0, 1, 2, 3, 4): self.put(bs[o + k], g, k); O.bodies.append(bs[o + k])
            c = O.bodies.clump([o + 3, o + 4]); assert c == o + 5, c
            O.bodies[c].mask = 1 << (g + 1); O.bodies[c].state.vel = Vector3(*V(speed(5, 0))); O.bodies[c].state.angVel = Vector3(*V(speed(5, 1))); O.bodies[c].state.ori = Quaternion.Identity
            for k in (3, 4): s = O.bodies[o + k].state; s.vel = Vector3(*V(speed(k, 0))); s.angVel = Vector3(*V(speed(k, 1)))
            self.put(bs[o + 6], g, 6); O.bodies.append(bs[o + 6])
        O.engines = [yw.ForceResetter()] + [self.make(g) for g in range(len(G))]
        self.alt = self.par = self.ids = 0; self.n = len(bs)
    def put(self, b, g, k): b.mask = 1 if k == 6 else 1 << (g + 1); s = b.state; s.pos = Vector3(*V(place(k, 0) + off(g))); s.vel = Vector3(*V(speed(k, 0))); s.angVel = Vector3(*V(speed(k, 1)))
    def do(self, op):
        k = op[0]
        if k == 'step': O.step()
        elif k == 'dt': O.dt = .25 if O.dt == .125 else .125
        elif k == 'rt': O.resetTime()
        elif k == 'mv':
            self.alt = 1 - self.alt
            for i in range(len(G) * N):
                b = O.bodies[i]
                if b is None: continue
                kk = i % N; s = b.state; s.pos = Vector3(*V(place(kk, self.alt) + off(i // N))); s.vel = Vector3(*V(speed(kk, self.alt))); s.angVel = Vector3(*V(speed(kk, 1 - self.alt)))
        elif k == 'par':
            self.par = 1 - self.par; E = O.engines
            for g, (c, p, q) in enumerate(G):
                e = E[g + 1]
                if c == 'Comb': e.comb[2].dead = bool(self.par); continue
                for n in q: v = q[n] if self.par else p.get(n, A(0, 0, 0)); setattr(e, n, Vector3(*V(v)) if isinstance(v, np.ndarray) else v)
        elif k == 'ids':
            self.ids = 1 - self.ids; E = O.engines
            for g, (c, p, q) in enumerate(G):
                if c not in FIELD and c != 'DomainLimiter': E[g + 1].ids = [g * N + j for j in ((6, 5, 2) if self.ids else (0, 2, 5, 1))]
        elif k == 'dead':
            for e in O.engines[1:]: e.dead = not e.dead
        elif k == 'era':
            for g in range(len(G)):
                if O.bodies[g * N] is not None: O.bodies.erase(g * N)
        elif k == 'mask':
            for g in range(len(G)):
                if O.bodies[g * N] is not None: O.bodies[g * N].mask = 1
        elif k == 'app':
            for g in range(len(G)): b = utils.sphere(V(A(3, -3, .5) + off(g)), .35, material=0); b.mask = 1 << (g + 1); O.bodies.append(b)
        elif k == 'sl': O.saveTmp('c19', quiet=True); O.loadTmp('c19', quiet=True)
    def check(self, m):
        if len(O.bodies) != m['n']: return '%d bodies, should be %d' % (len(O.bodies), m['n'])
        E = O.engines
        first = 1
        for i in range(m['n']):
            b = O.bodies[i]; r = m['b'].get(i); nm = 'body %d (%s) ' % (i, G[i // N if i < len(G) * N else (i - len(G) * N) % len(G)][0])
            if (b is None) != (r is None): return nm + ('is gone' if b is None else 'should be gone')
            if b is None: continue
            s = b.state; q = s.ori
            f = O.forces.f(i, sync=bool(first)); first = 0
            for what, got, exp in (('position', s.pos, r['x']), ('velocity', s.vel, r['v']), ('angular velocity', s.angVel, r['w']), ('force', f, r['f']), ('torque', O.forces.t(i), r['T'])):
                if max(abs(got[0] - exp[0]), abs(got[1] - exp[1]), abs(got[2] - exp[2])) > 1e-10 * max(1, abs(exp[0]), abs(exp[1]), abs(exp[2])): return '%s%s is %s, should be %s' % (nm, what, V(got), V(exp))
            if r['k'] == 5 or r['R'] is EYE: continue
            R = q.toRotationMatrix()
            if max(abs(R[a, c] - r['R'][a][c]) for a in range(3) for c in range(3)) > 1e-10: return nm + 'orientation is %s' % R
        for g, (c, p, q) in enumerate(G):
            e = m['e'][g]
            if 'Helix' in c and abs(E[g + 1].angleTurned - e['angle']) > 1e-11: return '%s.angleTurned is %r, should be %r' % (c, E[g + 1].angleTurned, e['angle'])
            if c == 'DomainLimiter':
                got = (E[g + 1].nDeleted, E[g + 1].mDeleted, E[g + 1].vDeleted)
                if max(abs(x - y) for x, y in zip(got, e['del'])) > 1e-9 * max(1, e['del'][1]): return 'DomainLimiter: (nDeleted, mDeleted, vDeleted) is %s, should be %s' % (got, e['del'])
    def key(self, m): return repr((m['t'], m['it'], m['dt'], m['dead'], m['alt'], m['par'], m['ids'], m['n'], len(m['b']), [(V(m['b'][i]['v']), V(m['b'][i]['f']), V(m['b'][i]['x'])) for i in range(1, len(G) * N, N) if i in m['b']], m['b'].get(0, {}).get('mk')))
    def outcome(self, m): return (m['dead'], m['alt'], m['par'], m['ids'], len(m['b']))
EYE = np.eye(3)
S = M()
def jobs(tier): return prefixes(S, 2)
def setup():
    global O, utils, yw, Vector3, Quaternion
    import yade.wrapper as yw
    from yade import utils
    from minieigen import Vector3, Quaternion
    O = load()
def run(job, ctx): S.run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): S.replay_path(ctx, case[0], case[1])
