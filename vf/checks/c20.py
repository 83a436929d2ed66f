"""C20: shape, transformation and strain measures of the periodic cell over all bounded histories."""
import math
import numpy as np
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 4, 'thorough': 5}
BOUNDS = {t: 'every sequence of %d operations (step, velocity gradient set to 3 values or by component, integrator switched off/on, dt changed, box, base vectors, lengths, reference lengths or transformation assigned, step without periodicity, save+load) from 3 cells' % d for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence; after each operation 22 quantities of the cell and the images of 6 points are compared with continuum kinematics'
ASSUMPTIONS = ['right-handed cells', 'points closer than 1e-9 to the cell boundary are not wrapped', 'agreement to 1e-11 (relative)']
I3 = np.eye(3)
VG = {'A': [[.1, -.3, 0], [0, -.2, .4], [.05, 0, .3]], 'B': [[0, .7, 0], [0, 0, 0], [0, 0, 0]], '0': [[0] * 3] * 3}
H0 = {'box': [[3, 0, 0], [0, 4, 0], [0, 0, 5]], 'skew': [[3, 1.2, -.4], [.3, 4, .9], [-.2, .5, 5]], 'rot': [[0, -4, 0], [3, 0, 0], [0, 1, 2]]}
HS = [[2, .5, .1], [0, 3, -.6], [.4, 0, 2.5]]; TR = [[1.1, .2, 0], [-.1, .9, .05], [0, .3, 1.2]]
PTS = [(.37, 1.91, 2.83), (-1.1, -7.7, .2), (12.3, 4.1, -9.6), (100.7, -300.2, 55.3), (-.01, .013, 4.99), (2.999, 3.97, -.02)]
def inv(a): return np.linalg.inv(np.array(a, float))
class M(Seq):
    def init(self, cfg): return {'c': cfg, 'h': np.array(H0[cfg], float), 'F': I3, 'L': np.zeros((3, 3)), 'n': None, 'dead': 0, 'dt': .125, 'ref': np.array(H0[cfg], float)}
    def enabled(self, m): return [[x] for x in ('step', 'vA', 'vB', 'v0', 'vc', 'dead', 'dt', 'box', 'h', 'size', 'ref', 'tI', 'tA', 'np', 'sl')]
    def step(self, m, op):
        k = op[0]
        def newton():
            if m['n'] is not None and not m['dead']: m['L'] = m['n']; m['n'] = None
        if k == 'step':
            m['h'] = m['h'] + m['dt'] * m['L'] @ m['h']; m['F'] = m['F'] + m['dt'] * m['L'] @ m['F']; newton()
        elif k == 'np': newton()
        elif k in ('vA', 'vB', 'v0'): m['n'] = np.array(VG[k[1]], float)
        elif k == 'vc': n = np.zeros((3, 3)) if m['n'] is None else m['n'].copy(); n[1, 2] = .25; m['n'] = n
        elif k == 'dead': m['dead'] = 1 - m['dead']
        elif k == 'dt': m['dt'] = .25 if m['dt'] == .125 else .125
        elif k in ('box', 'ref'): m['h'] = m['ref'] = np.diag([2, 3.5, 4.5] if k == 'box' else [5., 2, 3]); m['F'] = I3
        elif k == 'h': m['h'] = m['ref'] = np.array(HS)
        elif k == 'size': m['h'] = m['h'] / np.sqrt((m['h'] ** 2).sum(0)) * [2.5, 3, 3.25]; m['ref'] = m['h']
        elif k == 'tI': m['F'] = I3
        elif k == 'tA': m['F'] = np.array(TR)
        return None
    def reset(self, cfg):
        O.reset(); O.dt = .125; O.periodic = True; O.cell.hSize = mat(H0[cfg]); O.engines = [ForceResetter(), NewtonIntegrator()]
    def do(self, op):
        k = op[0]; c = O.cell
        if k == 'step': O.step()
        elif k == 'np': O.periodic = False; O.step(); O.periodic = True
        elif k in ('vA', 'vB', 'v0'): c.velGrad = mat(VG[k[1]])
        elif k == 'vc': c.nextVelGrad[1, 2] = .25
        elif k == 'dead': e = O.engines[1]; e.dead = not e.dead
        elif k == 'dt': O.dt = .25 if O.dt == .125 else .125
        elif k == 'box': c.setBox(2, 3.5, 4.5)
        elif k == 'ref': c.refSize = (5, 2, 3)
        elif k == 'h': c.hSize = mat(HS)
        elif k == 'size': c.size = (2.5, 3, 3.25)
        elif k == 'tI': c.trsf = Matrix3.Identity
        elif k == 'tA': c.trsf = mat(TR)
        elif k == 'sl': O.saveTmp('c20', quiet=True); O.loadTmp('c20', quiet=True)
    def check(self, m):
        c = O.cell; h, F, L = m['h'], m['F'], m['L']; ln = np.sqrt((h ** 2).sum(0)); C = F.T @ F; b = F @ F.T
        w, Vv = np.linalg.eigh(C); U = Vv @ np.diag(np.sqrt(w)) @ Vv.T; R = F @ inv(U); sh = h / ln
        h0 = inv(F) @ h
        for nm, got, exp in (('hSize', c.hSize, h), ('trsf', c.trsf, F), ('velGrad', c.velGrad, L), ('nextVelGrad', c.nextVelGrad, np.zeros((3, 3)) if m['n'] is None else m['n']), ('hSize0', c.hSize0, h0), ('shearTrsf', c.shearTrsf, sh), ('unshearTrsf', c.unshearTrsf, inv(sh)),
            ('getDefGrad()', c.getDefGrad(), F), ('getSmallStrain()', c.getSmallStrain(), .5 * (F + F.T) - I3), ('getRCauchyGreenDef()', c.getRCauchyGreenDef(), C), ('getLCauchyGreenDef()', c.getLCauchyGreenDef(), b),
            ('getLagrangianStrain()', c.getLagrangianStrain(), .5 * (C - I3)), ('getEulerianAlmansiStrain()', c.getEulerianAlmansiStrain(), .5 * (I3 - inv(b))), ('getRotation()', c.getRotation(), R), ('getLeftStretch()', c.getLeftStretch(), U), ('getRightStretch()', c.getRightStretch(), F @ R.T),
            ('getPolarDecOfDefGrad()[0]', c.getPolarDecOfDefGrad()[0], R), ('getPolarDecOfDefGrad()[1]', c.getPolarDecOfDefGrad()[1], U)):
            g = np.array([[got[i, j] for j in range(3)] for i in range(3)])
            if np.abs(g - exp).max() > 1e-11 * max(1, np.abs(exp).max()): return '%s is %s, should be %s' % (nm, g.tolist(), exp.tolist())
        W = .5 * (L - L.T)
        for nm, got, exp in (('size', c.size, ln), ('refSize', c.refSize, np.sqrt((h0 ** 2).sum(0))), ('getSpin()', c.getSpin(), (W[2, 1], W[0, 2], W[1, 0]))):
            if max(abs(got[i] - exp[i]) for i in range(3)) > 1e-11 * max(1, max(map(abs, exp))): return '%s is %s, should be %s' % (nm, V(got), V(exp))
        if abs(c.volume - np.linalg.det(h)) > 1e-10 * abs(c.volume): return 'volume is %r, should be %r' % (c.volume, np.linalg.det(h))
        hi = inv(h); shi = inv(sh)
        for p in PTS:
            q = np.array(p); f = hi @ q; fr = f - np.floor(f); s = float(np.abs(q).max()) * 1e-11
            for nm, got, exp in (('shearPt', c.shearPt(p), sh @ q), ('unshearPt', c.unshearPt(p), shi @ q), ('wrap', c.wrap(p), h @ fr if min(fr) > 1e-9 and max(fr) < 1 - 1e-9 else None), ('wrapPt', c.wrapPt(p), q - np.floor(q / ln) * ln)):
                if exp is not None and max(abs(got[i] - exp[i]) for i in range(3)) > s * 10: return '%s(%s) is %s, should be %s' % (nm, p, V(got), exp.tolist())
        if O.dt != m['dt']: return 'dt'
    def key(self, m): return tuple(np.concatenate([m['h'].ravel(), m['F'].ravel(), m['L'].ravel(), [0] * 9 if m['n'] is None else m['n'].ravel()]).round(9)) + (m['dead'], m['dt'], m['n'] is None)
    def outcome(self, m): return (m['dead'], m['n'] is None, bool(m['L'].any()), bool((m['F'] != I3).any()))
def mat(a): return Matrix3(*[float(x) for r in a for x in r])
S = M()
def jobs(tier): return prefixes(S, 2, list(H0))
def setup():
    global O
    import yade.wrapper as yw, minieigen
    for n in ('ForceResetter', 'NewtonIntegrator'): globals()[n] = getattr(yw, n)
    globals()['Matrix3'] = minieigen.Matrix3; O = load()
def run(job, ctx): S.run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): S.replay_path(ctx, case[0], case[1])
