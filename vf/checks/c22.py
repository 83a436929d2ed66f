"""C22: the automatic time step is the stated fraction of the smallest eigenperiod, over all bounded histories of contacts, bodies and settings."""
import math
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 4, 'thorough': 5}
BOUNDS = {t: 'every sequence of %d operations (step, body moved into or out of contact, bodies erased, appended or blocked, contact stiffness changed, safety coefficient, maximum, update interval, stepper switched off and on, time step assigned, viscosity considered or not, density scaling, save+load), each followed by a step, in 7 scenes (frictional, cohesive with moments, Hertzian, viscoelastic, clump, facet and box, no contact at first with the default from the wave velocity)' % d for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence; after each step the time step (and the density scaling of each body) is compared with the value computed from the contacts by the documented formula'
ASSUMPTIONS = ['stiffness of a clump is the sum of those of its members, as documented in the code', 'contacts without force are not counted (documented in the code)']
CF = ['fr', 'coh', 'her', 'vis', 'clu', 'fac', 'free']
P = [(0, 0, 0), (.9, .2, 0), (-.3, .85, .1), (.3, -.2, .9)]; FAR = [(9, 0, 0), (9, 9, 0), (9, 0, 9), (0, 9, 9)]
class M(Seq):
    def init(self, cfg): return {'c': cfg, 'in': [0 if cfg == 'free' else 1] * 2 + [0, 0], 'n': 4, 'era': 0, 'ops': []}
    def enabled(self, m):
        ops = [['s'], ['blk'], ['saf'], ['max'], ['int'], ['act'], ['dt'], ['kn'], ['ds']] + [['in' if not m['in'][i] else 'out', i] for i in ((1, 2, 3) if m['c'] != 'clu' else (2, 3)) if not (i == 3 and m['era'])]
        nd = sum(o[0] == 'ds' for o in m['ops']); nv = sum(o[0] == 'visc' for o in m['ops'])
        if m['c'] == 'vis':
            if nv % 2: ops = [o for o in ops if o[0] != 'ds']
            if nd % 2 == 0: ops.append(['visc'])
        if not m['era']: ops.append(['era'])
        if m['n'] < 5: ops.append(['app'])
        if not any(o[0] == 'sv' for o in m['ops']): ops.append(['sv'])
        if m['ops']: ops = [o for o in ops if o[0] not in ('s', 'dt') or o != m['ops'][-1] or o[0] == 's']
        return ops
    def step(self, m, op):
        m['ops'].append(op)
        if op[0] in ('in', 'out'): m['in'][op[1]] ^= 1
        elif op[0] == 'era': m['era'] = 1
        elif op[0] == 'app': m['n'] += 1
        return None
    def reset(self, cfg):
        O.reset(); self.cfg = cfg; O.dt = 1e-5; sp = utils.sphere; B = O.bodies
        if cfg == 'coh': O.materials.append(CohFrictMat(young=1e6, poisson=.3, density=1000, frictionAngle=.5, normalCohesion=1e4, shearCohesion=1e4, momentRotationLaw=True, alphaKr=.4, alphaKtw=.2))
        elif cfg == 'vis': O.materials.append(ViscElMat(density=1000, frictionAngle=.4, kn=1e5, cn=200, ks=5e4, cs=100))
        else: O.materials.append(FrictMat(young=1e6, poisson=.3, density=1000, frictionAngle=.3))
        ig = [Ig2_Sphere_Sphere_ScGeom()]; ip = [Ip2_FrictMat_FrictMat_FrictPhys()]; law = [Law2_ScGeom_FrictPhys_CundallStrack()]; bo = [Bo1_Sphere_Aabb()]
        if cfg == 'coh': ig = [Ig2_Sphere_Sphere_ScGeom6D()]; ip = [Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionOnNewContacts=True)]; law = [Law2_ScGeom6D_CohFrictPhys_CohesionMoment()]
        if cfg == 'her': ip = [Ip2_FrictMat_FrictMat_MindlinPhys()]; law = [Law2_ScGeom_MindlinPhys_Mindlin()]
        if cfg == 'vis': ip = [Ip2_ViscElMat_ViscElMat_ViscElPhys()]; law = [Law2_ScGeom_ViscElPhys_Basic()]
        rad = [.5, .52, .45, .55]; far = [] if cfg == 'free' else [0, 1]
        if cfg == 'clu':
            B.appendClumped([sp(P[0], .5), sp(P[1], .52)]); self.mov = {2: 3, 3: 4}; B.append(sp(FAR[2], .45)); B.append(sp(FAR[3], .55))
        else:
            self.mov = {i: i for i in range(4)}
            for i in range(4): B.append(sp(P[i] if i in far else FAR[i], rad[i]))
        if cfg == 'free': B[0].state.pos = P[0]
        if cfg == 'fac':
            ig += [Ig2_Facet_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom()]; bo += [Bo1_Facet_Aabb(), Bo1_Box_Aabb()]
            B.append(utils.facet([(-3, -3, -.48), (4, -3, -.48), (0, 4, -.48)])); B.append(utils.box((0, -.6, 0), (3, .14, 3)))
        self.ts = dict(timestepSafetyCoefficient=.6, timeStepUpdateInterval=1, defaultDt=-1. if cfg == 'free' else 3e-3)
        O.engines = [ForceResetter(), InsertionSortCollider(bo, verletDist=0), InteractionLoop(ig, ip, law), GlobalStiffnessTimeStepper(label='vfTs', **self.ts), NewtonIntegrator(damping=0, mask=16)]
        self.saf = .6; self.max = math.inf; self.iv = 1; self.act = True; self.prev = math.inf; self.once = False; self.dt = 1e-5; self.visc = False; self.dsc = False; self.dd = {}; self.it = 0; self.nk = 0; self.df = self.ts['defaultDt']
        self.one()
    def tse(self): return O.engines[3]
    def do(self, op):
        B = O.bodies; k = op[0]; T = self.tse()
        if k in ('in', 'out'): B[self.mov[op[1]]].state.pos = (P if k == 'in' else FAR)[op[1]]
        elif k == 'blk': b = B[self.mov[2]]; b.dynamic = not b.dynamic
        elif k == 'saf': self.saf = .3 if self.saf == .6 else .6; T.timestepSafetyCoefficient = self.saf
        elif k == 'max': self.max = 7e-4 if self.max == math.inf else math.inf; T.maxDt = self.max if self.max < 1 else -1.
        elif k == 'int': self.iv = 3 if self.iv == 1 else 1; T.timeStepUpdateInterval = self.iv
        elif k == 'act': self.act = not self.act; O.dynDt = self.act
        elif k == 'dt': O.dt = self.dt = 1.3e-4; self.act = self.act and bool(T.active)
        elif k == 'kn':
            for x in O.interactions:
                if self.cfg != 'her': x.phys.kn *= 4; x.phys.ks *= 3
        elif k == 'visc': self.visc = not self.visc; T.viscEl = self.visc
        elif k == 'ds': self.dsc = not self.dsc; T.targetDt = 2e-3; O.engines[4].densityScaling = self.dsc
        elif k == 'era': B.erase(self.mov[3])
        elif k == 'app': B.append(utils.sphere((-.75, -.3, .25), .48))
        elif k == 'sv':
            O.saveTmp('c22', quiet=True); O.loadTmp('c22', quiet=True)
            if O.engines[4].densityScaling != self.dsc: raise AssertionError('density scaling lost')
        for b in B: b.state.vel = (0, 0, 0); b.state.angVel = (0, 0, 0); b.state.angMom = (0, 0, 0)
        self.one()
    def one(self):
        it = O.iter; O.step(); self.expect(it)
    def expect(self, it):
        if not (self.act and (not self.once or it % self.iv == 0 or it < 2)): return
        if self.df < 0: self.df = self.saf * min(b.shape.radius * math.sqrt(b.material.density / b.material.young) for b in O.bodies if isinstance(b.shape, Sphere))
        K = {}; C = {}
        def add(D, i, n, kn, ks, r, kr=(0, 0)):
            d = D.setdefault(i, [0.] * 6)
            for a in range(3):
                nn = n[a] ** 2; d[a] += (kn - ks) * nn + ks; d[3 + a] += ks * (1 - nn) * r * r + (kr[0] - kr[1]) * nn + kr[1]
        for x in O.interactions:
            if x.phys.normalForce.norm() == 0: continue
            kr = (x.phys.ktw, x.phys.kr) if self.cfg == 'coh' else (0, 0)
            for i, r in ((x.id1, x.geom.refR1), (x.id2, x.geom.refR2)):
                add(K, i, x.geom.normal, x.phys.kn, x.phys.ks, r, kr)
                if self.visc: add(C, i, x.geom.normal, x.phys.cn, x.phys.cs, r)
        new = math.inf; some = False
        for b in O.bodies:
            if b.isClumpMember or not b.dynamic: continue
            ids = [b.id] if not b.isClump else list(b.shape.members.keys())
            k = [sum(K.get(i, [0] * 6)[a] for i in ids) for a in range(6)]; c = [sum(C.get(i, [0] * 6)[a] for i in ids) for a in range(6)]
            m = [b.state.mass] * 3 + list(b.state.inertia); dt = math.inf
            if any(k): dt = self.saf * math.sqrt(2 * min([m[0] / max(k[:3])] + [m[a] / k[a] for a in (3, 4, 5) if k[a]])); some = True
            elif self.dsc:
                dd = self.saf * ((b.shape.radius * math.sqrt(b.material.density / b.material.young) if isinstance(b.shape, Sphere) and hasattr(b.material, 'young') else self.df) / 2e-3) ** 2
                self.dd[b.id] = min(1.01 * self.dd[b.id], dd) if self.dd.get(b.id, -1) > 0 else dd
            if self.visc and any(c): dt = min(dt, 2 * self.saf * min([m[0] / max(c[:3])] + [m[a] / c[a] for a in (3, 4, 5) if c[a]])); some = True
            if self.dsc and dt < math.inf: self.dd[b.id] = min(1.05 * self.dd[b.id], (dt / 2e-3) ** 2) if self.dd.get(b.id, -1) > 0 else (dt / 2e-3) ** 2
            new = min(new, dt)
        if self.dsc: new = 2e-3
        if some or self.dsc: self.prev = min(new, self.max, 1.05 * self.prev); self.dt = self.prev; self.once = True
        elif not self.once: self.dt = self.df
    def check(self, m):
        if not close(O.dt, self.dt, 3e-3): return 'time step %r, expected %r' % (O.dt, self.dt)
        if O.dynDt != self.act: return 'dynDt is %r' % O.dynDt
        for i, v in self.dd.items():
            b = O.bodies[i]
            if b is not None and not close(b.state.densityScaling, v, 6e-3): return 'density scaling of body %d is %r, expected %r' % (i, b.state.densityScaling, v)
    def key(self, m): return m['c'] + '%.9g' % self.dt + repr((m['in'], m['n'], m['era']))
    def outcome(self, m): return '%.3g' % self.dt
S = M()
def jobs(tier): return prefixes(S, 2, CF)
def setup():
    global O, utils
    import yade.wrapper as w
    from yade import utils
    for k in dir(w):
        if k[0].isupper() and k not in globals(): globals()[k] = getattr(w, k)
    O = load()
def run(job, ctx): S.run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): S.replay_path(ctx, case[0], case[1])
