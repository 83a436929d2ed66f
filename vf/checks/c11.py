"""C11: measures of the packing equal their definition, whatever happened to the packing before."""
import math
import numpy as np
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 4, 'thorough': 6}
BOUNDS = {t: 'every sequence of %d operations (step, erase a sphere / clump member, append, clump, release, velocities set, calm by mask, group masks changed, grow, shift, friction changed, reference reset) in 4 scenes (spheres and facet, clumps, periodic deforming cell, walls and fixed spheres), all measures evaluated after each operation' % d for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence on the real library; after each operation 30 measures are compared with their definition evaluated over the bodies and contacts'
ASSUMPTIONS = ['measures over contacts are only compared when there is a contact', 'frictional spheres']
PI = math.pi
def arr(v): return np.array([v[0], v[1], v[2]])
def mat(m): return np.array([[m[i, j] for j in range(3)] for i in range(3)])
class M(Seq):
    def init(self, cfg):
        n = {'o': 6, 'c': 8, 'p': 5, 'w': 7}[cfg]
        return {'c': cfg, 'live': [i for i in range(n)], 'n': n, 'ap': 0, 'grown': 0, 'ops': ''}
    def enabled(self, m):
        o = [['s'], ['V'], ['K', 1], ['K', -1], ['M'], ['H'], ['f'], ['R']]
        e = {'o': [0, 2, 4], 'c': [0, 2, 5], 'p': [0, 3], 'w': [1, 3, 5]}[m['c']]
        o += [['e', i] for i in e if i in m['live']]
        if m['ap'] < 2: o.append(['a'])
        if not m['grown']: o += [['G', 0], ['G', 1]]
        return o
    def step(self, m, op):
        k = op[0]; m['ops'] += k
        if k == 'e':
            m['live'].remove(op[1])
        elif k == 'a': m['ap'] += 1
        elif k == 'G': m['grown'] = 1
        return Ellipsis
    def reset(self, cfg):
        O.reset(); O.dt = 1e-4; B = O.bodies; sp = utils.sphere
        O.materials.append(FrictMat(young=1e7, poisson=.3, density=1000., frictionAngle=.4))
        O.materials.append(FrictMat(young=2e7, poisson=.2, density=2000., frictionAngle=.2))
        if cfg == 'o':
            for i in range(5): B.append(sp((.9 * i, .1 * i * i, 0), .5 - .02 * i, material=i % 2))
            B.append(utils.facet([(-3, -3, -.47), (6, -3, -.47), (0, 6, -.47)]))
        elif cfg == 'c':
            B.appendClumped([sp((0, 0, 0), .5, material=0), sp((1.05, 0, 0), .5, material=0)])                # 0,1 + clump 2
            B.append(sp((1.9, .3, 0), .5, material=1))                                    # 3
            B.appendClumped([sp((2.7, .5, .1), .4, material=1), sp((2.7, 1.4, .1), .5, material=1), sp((2.7, .5, 1.1), .5, material=0)])  # 4,5,6 + clump 7
        elif cfg == 'p':
            O.periodic = True; O.cell.hSize = Matrix3(3.6, .3, 0, 0, 3.4, .1, 0, 0, 3.2); O.cell.velGrad = Matrix3(-.1, .3, 0, 0, .2, 0, 0, 0, -.1)
            for i, p in enumerate([(.1, .2, .1), (1., .3, .2), (1.8, .3, 0), (.5, 1.1, .2), (5.0, 1.2, 3.4)]): B.append(sp(p, .5, material=i % 2))
        elif cfg == 'w':
            for i in range(4): B.append(sp((.9 * i, .05 * i, 0), .5, material=i % 2, fixed=i == 2))
            B.append(utils.wall((0, 0, -.48), axis=2)); B.append(utils.box((5, 0, 0), (1.85, .5, .5), fixed=True)); B.append(utils.wall((-.45, 0, 0), axis=0))
        for b in B:
            b.groupMask = 1 + b.id % 3
            if b.dynamic and not b.isClumpMember: b.state.vel = (.3 * (b.id % 3 - 1), .2 * b.id, -.4); b.state.angVel = (.5, b.id, -1)
            if b.isClump: b.state.angMom = b.state.angVel * 100
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb(), Bo1_Box_Aabb()]), InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]), NewtonIntegrator(gravity=(0, .5, -9.81), damping=.1)]
        O.step(); self.t = 0
    def do(self, op):
        k = op[0]; self.t += 1; B = O.bodies
        if k == 's': O.step(); O.step()
        elif k == 'e': B.erase(op[1])
        elif k == 'a': B.append(utils.sphere((.5 + .4 * self.t, .9, .3), .45, mask=3, material=1))
        elif k == 'V':
            for b in B:
                if not b.isClumpMember: b.state.vel = (.1 * b.id - .3, .2 * self.t, .3 * (b.id % 2)); b.state.angVel = (1, .5 * b.id, .2)
        elif k == 'K':
            msk = op[1]; before = [(b.id, V(b.state.vel)) for b in B]
            U.calm(msk)
            for i, v in before:
                b = B[i]; e = (0, 0, 0) if b.dynamic and (msk < 0 or b.groupMask & msk) else v
                if V(b.state.vel) != e: return self.fail('calm(%d) left body %d with velocity %s' % (msk, i, V(b.state.vel)))
        elif k == 'M':
            for b in B: b.groupMask = b.groupMask % 3 + 1
        elif k == 'H':
            ids = [b.id for b in B if not b.isClumpMember and not b.isClump]; p = {b.id: arr(b.state.pos) for b in B}
            gone = [i for i in range(len(B)) if B[i] is None]
            U.shiftBodies(ids[:2] + gone[:1], (.03, 0, .01))
            for b in B:
                d = arr(b.state.pos) - p[b.id]
                if np.abs(d - (np.array([.03, 0, .01]) if b.id in ids[:2] else 0)).max() > 1e-12: return self.fail('shiftBodies moved body %d by %s' % (b.id, d))
        elif k == 'f':
            a = .1 + .05 * self.t; U.setContactFriction(a)
            for b in B:
                if b.dynamic and not b.isClump and abs(b.mat.frictionAngle - a) > 1e-12: return self.fail('friction of body %d is %r after setContactFriction' % (b.id, b.mat.frictionAngle))
            for i in O.interactions:
                e = math.tan(min(B[i.id1].mat.frictionAngle, B[i.id2].mat.frictionAngle))
                if abs(i.phys.tangensOfFrictionAngle - e) > 1e-12: return self.fail('friction of contact %d-%d is %r, expected %r' % (i.id1, i.id2, i.phys.tangensOfFrictionAngle, e))
        elif k == 'R':
            U.setRefSe3()
            for b in B:
                if V(b.state.refPos) != V(b.state.pos) or Q(b.state.refOri) != Q(b.state.ori): return self.fail('reference of body %d not set' % b.id)
        elif k == 'G':
            o = {b.id: (b.state.mass, arr(b.state.inertia), b.shape.radius if isinstance(b.shape, Sphere) else 0) for b in B}; md = bool(op[1])
            U.growParticles(1.1, True, md)
            for b in B:
                g = (isinstance(b.shape, Sphere) or b.isClump) and (b.dynamic or not md); q = 1.1 if g else 1.
                if not close(b.state.mass, o[b.id][0] * q ** 3) or np.abs(arr(b.state.inertia) - o[b.id][1] * q ** 5).max() > 1e-9 * (1 + o[b.id][1].max()) or (isinstance(b.shape, Sphere) and not close(b.shape.radius, o[b.id][2] * q)): return self.fail('body %d not grown as asked' % b.id)
    def fail(self, s): self.bad = s
    bad = None
    def check(self, m):
        if self.bad: s = self.bad; self.bad = None; return s
        B = [b for b in O.bodies]; live = [b.id for b in B]
        if m['ap'] == 0 and live != m['live']: return 'bodies %s' % live
        S = [b for b in B if isinstance(b.shape, Sphere)]; I = [i for i in O.interactions if i.isReal]
        per = O.periodic; L = mat(O.cell.velGrad) if per else np.zeros((3, 3)); dt = O.dt
        def eq(nm, got, exp, tol=1e-9):
            g = np.array(got, float).ravel(); e = np.array(exp, float).ravel()
            if g.shape != e.shape or not (np.abs(g - e) <= tol * (1e-2 + np.abs(e).max())).all(): return '%s is %s, by definition %s' % (nm, g.tolist(), e.tolist())
        r = []
        for k in (-1, 1, 2, 4):
            SS = [b for b in S if k < 0 or b.groupMask & k]
            r.append(eq('getSpheresVolume(%d)' % k, U.getSpheresVolume(k), sum(4 / 3. * PI * b.shape.radius ** 3 for b in SS)))
            r.append(eq('getSpheresMass(%d)' % k, U.getSpheresMass(k), sum(b.state.mass for b in SS)))
        lo = np.min([arr(b.state.pos) - b.shape.radius for b in S], 0); hi = np.max([arr(b.state.pos) + b.shape.radius for b in S], 0)
        cl = np.min([arr(b.state.pos) for b in S], 0); ch = np.max([arr(b.state.pos) for b in S], 0)
        a = U.aabbExtrema(); r.append(eq('aabbExtrema', [arr(a[0]), arr(a[1])], [lo, hi]))
        a = U.aabbExtrema(.2, True); r.append(eq('aabbExtrema(.2,centers)', [arr(a[0]), arr(a[1])], [cl + .1 * (ch - cl), ch - .1 * (ch - cl)]))
        vs = sum(4 / 3. * PI * b.shape.radius ** 3 for b in S); vol = O.cell.volume if per else float(np.prod(hi - lo))
        if per: vol = float(np.linalg.det(mat(O.cell.hSize)))
        r.append(eq('porosity', U.porosity(), (vol - vs) / vol))
        if not per: r.append(eq('porosity(50)', U.porosity(50.), 1 - vs / 50))
        for ax in (0, 1, 2):
            e = ([b.id for b in S if b.state.pos[ax] - b.shape.radius * 1.3 <= lo[ax]], [b.id for b in S if b.state.pos[ax] + b.shape.radius * 1.3 >= hi[ax]])
            g = U.negPosExtremeIds(ax, 1.3)
            if (list(g[0]), list(g[1])) != e: r.append('negPosExtremeIds(%d) is %s, by definition %s' % (ax, g, e))
        g = U.coordsAndDisplacements(1); r.append(eq('coordsAndDisplacements', [list(g[0]), list(g[1])], [[b.state.pos[1] for b in B], [b.state.pos[1] - b.state.refPos[1] for b in B]]))
        g = U.coordsAndDisplacements(0, ((.2, -9, -9), (2.8, 9, 9))); r.append(eq('coordsAndDisplacements in a box', list(g[0]), [b.state.pos[0] for b in B if .2 < b.state.pos[0] < 2.8 and abs(b.state.pos[1]) < 9 and abs(b.state.pos[2]) < 9]))
        E = {}; W = .5 * (L - L.T); spin = np.array([W[2, 1], W[0, 2], W[1, 0]])
        for b in B:
            if not b.dynamic or b.isClumpMember: continue
            v = arr(b.state.vel); w = arr(b.state.angVel); Ii = arr(b.state.inertia)
            if per: v = v - L @ (arr(b.state.pos) - v * dt); w = w - spin
            R = np.array([arr(b.state.ori * Vector3(*[1. if j == c else 0. for j in range(3)])) for c in range(3)]).T if b.aspherical else np.eye(3)
            wl = R.T @ w; E[b.id] = .5 * b.state.mass * (v @ v) + .5 * (Ii * wl) @ wl
        r.append(eq('kineticEnergy', U.kineticEnergy(), sum(E.values())))
        if E and max(E.values()) > 0:
            g = U.kineticEnergy(True); mx = max(E.values())
            if not close(E.get(g[1], -1), mx): r.append('kineticEnergy(findMaxId) says %d with %s' % (g[1], E))
        r.append(eq('momentum', arr(U.momentum()), sum((b.state.mass * arr(b.state.vel) for b in B if not b.isClumpMember), np.zeros(3))))
        pw = [b.shape.radius / math.sqrt(b.mat.young / (b.state.mass / (4 / 3. * PI * b.shape.radius ** 3))) for b in S]
        r.append(eq('PWaveTimeStep', U.PWaveTimeStep(), min(pw)))
        rw = [PI * b.shape.radius / (.1631 * b.mat.poisson + .876605) * math.sqrt(b.state.mass / (4 / 3. * PI * b.shape.radius ** 3) / (b.mat.young / (2 * (1 + b.mat.poisson)))) for b in S]
        r.append(eq('RayleighWaveTimeStep', U.RayleighWaveTimeStep(), min(rw)))
        Z = np.zeros((3, 3)); g = U.getDynamicStress(); ds = []
        for i in range(len(O.bodies)):
            b = O.bodies[i]
            if b is None or not isinstance(b.shape, Sphere): ds.append(Z); continue
            u = arr(b.state.vel) - (L @ arr(b.state.pos) if per else 0); ds.append(-b.state.mass * np.outer(u, u) / (4 / 3. * PI * b.shape.radius ** 3))
        r.append(eq('getDynamicStress', [mat(x) for x in g], ds))
        td = Z
        for b in B:
            if not b.isClumpMember: u = arr(b.state.vel) - (L @ arr(b.state.pos) if per else 0); td = td + b.state.mass * np.outer(u, u) / 20.
        r.append(eq('getTotalDynamicStress (absolute value)', np.abs(mat(U.getTotalDynamicStress(20.))), np.abs(td)))
        ids = live[:3]; f = {i: arr(O.forces.f(i, True)) for i in live}; t = {i: arr(O.forces.t(i, True)) for i in live}
        fsc = max([np.abs(x).max() for x in list(f.values()) + list(t.values())] + [1.])
        dr = np.array([.3, -.5, .8]); pt = np.array([.1, .2, -.3])
        r.append(eq('sumForces', U.sumForces(ids, Vector3(*dr)) / fsc, sum(dr @ f[i] for i in ids) / fsc))
        r.append(eq('sumTorques', U.sumTorques(ids, Vector3(*dr), Vector3(*pt)) / fsc, sum(dr @ (t[i] + np.cross(arr(O.bodies[i].state.pos) - pt, f[i])) for i in ids) / fsc))
        # contacts
        n = {i: 0 for i in range(len(O.bodies))}; nc = dict(n); con = {i: [] for i in n}
        for i in I:
            for x, y in ((i.id1, i.id2), (i.id2, i.id1)): n[x] += 1; con[x].append(y); b = O.bodies[x]; nc[b.clumpId if b.isClumpMember else x] += 1
        if list(U.numIntrsOfEachBody()) != [n[k] for k in sorted(n)]: r.append('numIntrsOfEachBody is %s, by definition %s' % (list(U.numIntrsOfEachBody()), n))
        if [sorted((x.id1, x.id2) for x in l) for l in U.intrsOfEachBody()] != [sorted((i.id1, i.id2) for i in I if k in (i.id1, i.id2)) for k in sorted(n)]: r.append('intrsOfEachBody is wrong')
        for k in live:
            if sorted(U.getBodyIdsContacts(k)) != sorted(con[k]): r.append('getBodyIdsContacts(%d) is %s, contacts are with %s' % (k, sorted(U.getBodyIdsContacts(k)), sorted(con[k])))
        h = {}
        for b in B:
            if b.isClumpMember: continue
            h[nc[b.id]] = h.get(nc[b.id], 0) + 1
        g = U.bodyNumInteractionsHistogram(()); got = dict(zip(list(g[0]), list(g[1])))
        if got != h: r.append('bodyNumInteractionsHistogram is %s, by definition %s' % (got, h))
        r.append(eq('avgNumInteractions', utils.avgNumInteractions(), 2. * len(I) / len(live)))
        if I:
            def F(i): return arr(i.phys.normalForce) + arr(i.phys.shearForce)
            H = mat(O.cell.hSize) if per else Z
            def br(i): return arr(O.bodies[i.id1].state.pos) - arr(O.bodies[i.id2].state.pos) - H @ np.array([float(i.cellDist[k]) for k in range(3)])
            st = sum(np.outer(F(i), br(i)) for i in I); fs = max(np.abs(F(i)).max() for i in I); 
            r.append(eq('getStress(7)', mat(U.getStress(7.)), st / 7)); r.append(eq('getStress()', mat(U.getStress()), st / vol))
            bs = [np.zeros((3, 3)) for k in n]
            if all(O.bodies[x].__class__ and isinstance(O.bodies[x].shape, Sphere) for i in I for x in (i.id1, i.id2)):
                for i in I:
                    c = arr(i.geom.contactPoint)
                    bs[i.id1] -= np.outer(F(i), c - arr(O.bodies[i.id1].state.pos)) / (4 / 3. * PI * i.geom.refR1 ** 3)
                    bs[i.id2] += np.outer(F(i), c - arr(O.bodies[i.id2].state.pos) - H @ np.array([float(i.cellDist[k]) for k in range(3)])) / (4 / 3. * PI * i.geom.refR2 ** 3)
                r.append(eq('bodyStressTensors', [mat(x) for x in U.bodyStressTensors()], bs))
            ov = [i.geom.penetrationDepth / (2 * a.radius * b.radius / (a.radius + b.radius)) for i in I for a, b in [(O.bodies[i.id1].shape, O.bodies[i.id2].shape)] if isinstance(a, Sphere) and isinstance(b, Sphere)]
            r.append(eq('maxOverlapRatio', U.maxOverlapRatio(), max(ov + [-1.])))
            g = U.totalForceInVolume(); r.append(eq('totalForceInVolume', arr(g[0]), sum(np.abs(F(i)) for i in I))); r.append(eq('mean stiffness', g[1], sum(i.phys.kn / 3. + 2 * i.phys.ks / 3. for i in I) / len(I)))
            fp = np.zeros(3); pp = np.array([1.3, .1, 0]); nn = np.array([1., .2, .1])
            for i in I:
                d1 = (arr(O.bodies[i.id1].state.pos) - pp) @ nn; d2 = (arr(O.bodies[i.id2].state.pos) - pp) @ nn
                if d1 * d2 <= 0: fp = fp + (1 if d1 < 0 else -1) * F(i)
            r.append(eq('forcesOnPlane', arr(U.forcesOnPlane(Vector3(*pp), Vector3(*nn))) / fs, fp / fs))
            grav = np.array([0, .5, -9.81]); fb = []
            for b in B:
                if not b.dynamic or b.isClumpMember: continue
                x = f[b.id] + b.state.mass * grav
                fb.append(np.linalg.norm(x))
            mf = np.mean([np.linalg.norm(F(i)) for i in I])
            if fb: r.append(eq('unbalancedForce', U.unbalancedForce(), np.mean(fb) / mf)); r.append(eq('unbalancedForce(max)', U.unbalancedForce(True), max(fb) / mf))
            inb = [i for i in I if (arr(i.geom.contactPoint) >= lo).all() and (arr(i.geom.contactPoint) <= hi).all()]
            if inb: r.append(eq('fabricTensor', mat(U.fabricTensor()[0]), sum(np.outer(arr(i.geom.normal), arr(i.geom.normal)) for i in inb) / len(inb)))
            cc = [nc[b.id] for b in B if not b.isClumpMember]; n0 = cc.count(0); n1 = cc.count(1)
        for x in r:
            if x: return x
    def key(self, m): return repr(m)
    def outcome(self, m): return ''.join(sorted(m['ops']))
S_ = M()
def jobs(tier): return prefixes(S_, 2, ['o', 'c', 'p', 'w'])
def setup():
    global O, utils, U
    import yade.wrapper as w, minieigen
    from yade import utils
    import yade._utils as U
    for k in dir(w):
        if k[0].isupper() and k not in globals(): globals()[k] = getattr(w, k)
    globals().update({k: getattr(minieigen, k) for k in ('Vector3', 'Matrix3', 'Quaternion')})
    O = load()
def run(job, ctx): S_.run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): S_.replay_path(ctx, case[0], case[1])
