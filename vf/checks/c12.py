"""C12: forces of contact laws balance, and depend neither on the frame, nor on a common velocity, the order of the bodies, or the side of a periodic boundary."""
import math, __main__
import numpy as np
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 3, 'thorough': 4}
BOUNDS = {t: 'every sequence of %d moves (approach, withdrawal, 2 shears, spin of either body, common rotation; periodic: change of the velocity gradient), 3 steps each, for 35 contact laws and variants between spheres in open and periodic scenes, one between sphere and grid connection, and 10 between sphere and facet, box (also with the centre of the sphere inside) or wall; 5-7 copies of the pair per scene' % d for t, d in DEPTH.items()}
RULE = 'a trace is one sequence of moves; after the contact laws of each step forces and moments are summed and compared between the copies (turned, moving along, in other order, across the periodic boundary)'
ASSUMPTIONS = ['contacts of two bodies whose motion is prescribed', 'laws computing torques from radii (documented) are only used between spheres', 'copies agree to 1e-6 of the largest force so far (L3Geom/L6Geom: 1e-3), balance to 1e-9', 'capillary engines, wires, polyhedra and tetrahedra are not covered', 'that a common rotation turns the forces along is not checked for walls, lubrication, and the Mindlin law between a sphere and another shape']
def law(mat, ig, ip, lw, **kw): return dict(kw, mat=mat, ig=ig, ip=ip, law=lw)
SS = 'Ig2_Sphere_Sphere_ScGeom()'; SS6 = 'Ig2_Sphere_Sphere_ScGeom6D()'
FR = 'FrictMat(young=1e6,poisson=.3,density=1000,frictionAngle=.5)'; FR2 = 'FrictMat(young=2e6,poisson=.2,density=1500,frictionAngle=.3)'
CO = 'CohFrictMat(young=1e6,poisson=.3,density=1000,frictionAngle=.5,alphaKr=.6,alphaKtw=.4,etaRoll=%s,etaTwist=%s,normalCohesion=%s,shearCohesion=%s,momentRotationLaw=True,isCohesive=%s)'
LAWS = {
 'cundall': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_FrictPhys()'], ['Law2_ScGeom_FrictPhys_CundallStrack()'], coul=1, ref='noratch'),
 'cundallE': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_FrictPhys()'], ['Law2_ScGeom_FrictPhys_CundallStrack(neverErase=True,traceEnergy=True)'], coul=1, ref='noratch'),
 'cundallN': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_FrictPhys()'], ['Law2_ScGeom_FrictPhys_CundallStrack(sphericalBodies=False)'], coul=1, ref='noratch'),
 'ratchet': law([FR, FR2], ['Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=False)'], ['Ip2_FrictMat_FrictMat_FrictPhys()'], ['Law2_ScGeom_FrictPhys_CundallStrack(sphericalBodies=False)'], coul=1, ref='ratch'),
 'viscofrict': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_ViscoFrictPhys()'], ['Law2_ScGeom_ViscoFrictPhys_CundallStrack(shearCreep=True,viscosity=3e4,creepStiffness=.5)'], coul=1),
 'frictvisco': law(['FrictViscoMat(young=1e6,poisson=.3,density=1000,frictionAngle=.5,betan=.2)', 'FrictViscoMat(young=2e6,poisson=.3,density=1000,frictionAngle=.4,betan=.1)'], [SS], ['Ip2_FrictViscoMat_FrictViscoMat_FrictViscoPhys()'], ['Law2_ScGeom_FrictViscoPhys_CundallStrackVisco()'], coul=1),
 'mindlin': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_MindlinPhys()'], ['Law2_ScGeom_MindlinPhys_Mindlin(preventGranularRatcheting=True)'], coul=1),
 'mindlinD': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_MindlinPhys(en=.7,es=.6)'], ['Law2_ScGeom_MindlinPhys_Mindlin(preventGranularRatcheting=False)'], coul=0),
 'mindlinM': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_MindlinPhys(krot=.5,ktwist=.4,eta=.2)'], ['Law2_ScGeom_MindlinPhys_Mindlin(includeMoment=True)'], coul=1),
 'mindlinA': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_MindlinPhys(gamma=3)'], ['Law2_ScGeom_MindlinPhys_Mindlin(includeAdhesion=True)']),
 'hertz': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_MindlinPhys()'], ['Law2_ScGeom_MindlinPhys_HertzWithLinearShear(nonLin=1)'], coul=1),
 'hertz2': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_MindlinPhys()'], ['Law2_ScGeom_MindlinPhys_HertzWithLinearShear(nonLin=2)'], coul=1),
 'hertz3': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_MindlinPhys()'], ['Law2_ScGeom_MindlinPhys_HertzWithLinearShear(nonLin=3)'], coul=1),
 'deresiewicz': law([FR, FR2], [SS], ['Ip2_FrictMat_FrictMat_MindlinPhys()'], ['Law2_ScGeom_MindlinPhys_MindlinDeresiewitz()']),
 'viscel': law(['ViscElMat(kn=1e5,ks=4e4,cn=20,cs=10,frictionAngle=.5,density=1000,mR=.05,mRtype=1)'] * 2, [SS], ['Ip2_ViscElMat_ViscElMat_ViscElPhys()'], ['Law2_ScGeom_ViscElPhys_Basic()']),
 'viscel2': law(['ViscElMat(tc=.05,en=.5,et=.4,frictionAngle=.3,density=1000,mR=.1,mRtype=2)'] * 2, [SS], ['Ip2_ViscElMat_ViscElMat_ViscElPhys()'], ['Law2_ScGeom_ViscElPhys_Basic()']),
 'viscelcap': law(['ViscElCapMat(kn=1e5,ks=4e4,cn=20,cs=10,frictionAngle=.5,density=1000,Capillar=True,Vb=2e-4,gamma=5,theta=.1,CapillarType="Willett_numeric")'] * 2, [SS], ['Ip2_ViscElCapMat_ViscElCapMat_ViscElCapPhys()'], ['Law2_ScGeom_ViscElCapPhys_Basic()']),
 'coh': law([CO % (.3, .3, '1e4', '8e3', 'True')] * 2, [SS6], ['Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True)'], ['Law2_ScGeom6D_CohFrictPhys_CohesionMoment()']),
 'cohI': law([CO % (.2, .1, '1e4', '8e3', 'True')] * 2, [SS6], ['Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True)'], ['Law2_ScGeom6D_CohFrictPhys_CohesionMoment(useIncrementalForm=True,always_use_moment_law=True,shear_creep=True,creep_viscosity=3e4)']),
 'cohF': law([CO % (.3, .3, '0', '0', 'False')] * 2, [SS6], ['Ip2_CohFrictMat_CohFrictMat_CohFrictPhys()'], ['Law2_ScGeom6D_CohFrictPhys_CohesionMoment(always_use_moment_law=True)'], coul=1),
 'jcfpm': law(['JCFpmMat(young=1e6,poisson=.3,density=1000,frictionAngle=.5,cohesion=1e4,tensileStrength=8e3,type=1)'] * 2, ['Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.02)'], ['Ip2_JCFpmMat_JCFpmMat_JCFpmPhys(cohesiveTresholdIteration=1)'], ['Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM()']),
 'cpm': law(['CpmMat(young=1e6,poisson=.3,density=1000,frictionAngle=.5,epsCrackOnset=1e-2,relDuctility=5,sigmaT=8e3)'] * 2, ['Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.02)'], ['Ip2_CpmMat_CpmMat_CpmPhys(cohesiveThresholdIter=1)'], ['Law2_ScGeom_CpmPhys_Cpm()']),
 'mortar': law(['MortarMat(young=1e6,poisson=.3,density=1000,tensileStrength=8e3,compressiveStrength=1e5,cohesion=1e4,frictionAngle=.5,ellAspect=1)'] * 2, ['Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.02)'], ['Ip2_MortarMat_MortarMat_MortarPhys()'], ['Law2_ScGeom_MortarPhys_Lourenco()']),
 'luding': law(['LudingMat(k1=1e5,kp=2e5,ks=4e4,kc=3e4,PhiF=.2,G0=10,frictionAngle=.4,density=1000)'] * 2, [SS], ['Ip2_LudingMat_LudingMat_LudingPhys()'], ['Law2_ScGeom_LudingPhys_Basic()']),
 'bubble': law(['BubbleMat(surfaceTension=50,density=1000)'] * 2, [SS], ['Ip2_BubbleMat_BubbleMat_BubblePhys()'], ['Law2_ScGeom_BubblePhys_Bubble(surfaceTension=50)']),
 'lubric1': law([FR, FR2], ['Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.1)'], ['Ip2_FrictMat_FrictMat_LubricationPhys(eta=10,eps=.01)'], ['Law2_ScGeom_ImplicitLubricationPhys(activateTangencialLubrication=True,activateTwistLubrication=True,activateRollLubrication=True,resolution=1)'], d=.951),
 'lubric2': law([FR, FR2], ['Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.1)'], ['Ip2_FrictMat_FrictMat_LubricationPhys(eta=10,eps=.01)'], ['Law2_ScGeom_ImplicitLubricationPhys(activateTangencialLubrication=True,activateTwistLubrication=True,activateRollLubrication=True,resolution=2)'], d=.951),
 'lubric0': law([FR, FR2], ['Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.1)'], ['Ip2_FrictMat_FrictMat_LubricationPhys(eta=10,eps=.01)'], ['Law2_ScGeom_ImplicitLubricationPhys(activateTangencialLubrication=True,activateTwistLubrication=True,activateRollLubrication=True,resolution=0)'], d=.951),
 'L3r': law([FR, FR2], ['Ig2_Sphere_Sphere_L3Geom(noRatch=False)'], ['Ip2_FrictMat_FrictMat_FrictPhys()'], ['Law2_L3Geom_FrictPhys_ElPerfPl()'], tol=1e-3),
 'L3': law([FR, FR2], ['Ig2_Sphere_Sphere_L3Geom()'], ['Ip2_FrictMat_FrictMat_FrictPhys()'], ['Law2_L3Geom_FrictPhys_ElPerfPl()'], tol=1e-3),
 'L6': law([FR, FR2], ['Ig2_Sphere_Sphere_L6Geom()'], ['Ip2_FrictMat_FrictMat_FrictPhys()'], ['Law2_L6Geom_FrictPhys_Linear()'], tol=5e-3),
 'inelast': law(['InelastCohFrictMat(young=1e6,poisson=.3,density=1000,frictionAngle=.5,tensionModulus=1e6,compressionModulus=1e6,shearModulus=4e5,alphaKr=.5,alphaKtw=.5,nuBending=1,nuTwist=1,sigmaTension=2e4,sigmaCompression=4e4,shearCohesion=1e4,creepTension=.5,creepBending=.5,creepTwist=.5,unloadTension=.5,unloadBending=.5,unloadTwist=.5,epsilonMaxTension=1,epsilonMaxCompression=1,etaMaxBending=1,etaMaxTwist=1)'] * 2, [SS6], ['Ip2_2xInelastCohFrictMat_InelastCohFrictPhys()'], ['Law2_ScGeom6D_InelastCohFrictPhys_CohesionMoment()']),
 'mixvisco': law(['FrictViscoMat(young=1e6,poisson=.3,density=1000,frictionAngle=.5,betan=.2)', FR2], [SS], ['Ip2_FrictMat_FrictViscoMat_FrictViscoPhys()'], ['Law2_ScGeom_FrictViscoPhys_CundallStrackVisco()'], coul=1),
 'grid': law([FR, FR2], ['Ig2_Sphere_GridConnection_ScGridCoGeom()', 'Ig2_GridNode_GridNode_GridNodeGeom6D()'], ['Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True)', 'Ip2_FrictMat_FrictMat_FrictPhys()'], ['Law2_ScGeom6D_CohFrictPhys_CohesionMoment()', 'Law2_ScGridCoGeom_FrictPhys_CundallStrack()'], coul=1, grid=1),
 'mixcpm': law(['CpmMat(young=1e6,poisson=.3,density=1000,frictionAngle=.5,epsCrackOnset=1e-2,relDuctility=5,sigmaT=8e3)', FR2], [SS], ['Ip2_FrictMat_CpmMat_FrictPhys()'], ['Law2_ScGeom_FrictPhys_CundallStrack()'], coul=1, ref='noratch'),
}
GEO = {'s': None, 'f': 'Ig2_Facet_Sphere_ScGeom', 'w': 'Ig2_Wall_Sphere_ScGeom', 'b': 'Ig2_Box_Sphere_ScGeom', 'd': 'Ig2_Box_Sphere_ScGeom', 'g': None}
GL = ['cundallN', 'ratchet', 'mindlin', 'mindlinD', 'mindlinM', 'viscel', 'viscel2', 'coh', 'cohF', 'cpm']
def cfgs(): return ['grid:g:o'] + [l + ':%s:o' % g for l in GL for g in 'fbdw' if g != 'w' or l[:3] != 'coh'] + [l + ':s:%s' % p for p in 'op' for l in LAWS if not LAWS[l].get('grid')]
R1, R2 = .5, .43
V0 = .37; DT = .01
def rot(v):
    v = np.array(v, float); a = math.sqrt(v @ v); n = v / a; K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K
# copies: rotation, offset, common velocity, order swapped
E3 = np.eye(3)
COPIES = [(E3, (0, 0, 0), (0, 0, 0), 0), (rot((.3, -1.1, .8)), (0, 11, 0), (0, 0, 0), 0), (E3, (4, 22, 0), (.21, -.34, .17), 0), (E3, (-4, 33, 0), (0, 0, 0), 1), (rot((-1.7, .4, 1.2)), (0, 44, 0), (-.1, .2, .3), 1)]
PD = [(0, 0, 0), (1, 0, 0), (-1, 1, 1), (0, 1, 0), (0, 0, -1), (1, 1, 0), (2, 0, -1)]  # the second body is the image displaced by so many cells
Q0 = rot((.2, -.6, .7))
PCOPIES = [(Q0, (5, 5, 5), (0, 0, 0), 0), (Q0, (9.4, 5, 1.3), (0, 0, 0), 0), (Q0, (-.4, -.3, -.2), (0, 0, 0), 1), (Q0, (6.5, 9.8, 5), (0, 0, 0), 0), (rot((0, 0, 1.1)), (2.5, -.15, 2.5), (0, 0, 0), 1), (rot((0, -1.4, .2)), (4.5, 3, -.2), (.02, .03, -.01), 0), (rot((.5, 2.3, .9)), (-.3, 9.7, 8), (0, 0, 0), 1)]
OPS = {'a': ((0, 0, 0), (-1, 0, 0), (0, 0, 0), (0, 0, 0)), 'r': ((-.4, 0, 0), (.9, 0, 0), (0, 0, 0), (0, 0, 0)), 'y': ((0, 0, 0), (0, 1.1, 0), (0, 0, 0), (0, 0, 0)), 'z': ((.1, 0, .8), (0, 0, -.3), (0, 0, 0), (0, 0, 0)),
       'u': ((0, 0, 0), (0, 0, 0), (1.5, .9, -2.2), (0, 0, 0)), 'v': ((0, 0, 0), (0, 0, 0), (.3, 0, 0), (-1.1, 1.4, 1.3)), 'q': None}
class M(Seq):
    def init(self, cfg): return {'c': cfg, 'ops': []}
    def enabled(self, m): return [[x] for x in (list('aryzuvq') + (['L'] if m['c'][-1] == 'p' else []))]
    def step(self, m, op): m['ops'].append(op[0]); return None
    def key(self, m): return ''.join(m['ops'])
    def outcome(self, m): return m['ops'][-1] + str(self.real)
    def reset(self, cfg):
        l, g, p = cfg.split(':'); L = LAWS[l]; self.L = L; self.p = p == 'p'; self.g = g
        O.reset(); O.dt = DT; ns = vars(yw)
        ev = lambda s: eval(s, dict(ns))
        if self.p: O.periodic = True; O.cell.hSize = Matrix3(10, 1, 0, 0, 10, 0, 0, .5, 10); O.cell.homoDeform = 0
        ms = [O.materials.append(ev(x)) for x in L['mat']]
        gm = O.materials.append(ev('CohFrictMat(young=1e6,poisson=.3,density=1000,frictionAngle=.5,normalCohesion=1e9,shearCohesion=1e9,isCohesive=True,momentRotationLaw=True)')) if g == 'g' else None; self.nd = {}
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=1.1), Bo1_Facet_Aabb(), Bo1_Box_Aabb(), Bo1_Wall_Aabb(), yw.Bo1_GridConnection_Aabb()], verletDist=0), InteractionLoop([ev(x) for x in L['ig'] + ([GEO[g] + ('6D' if '6D' in L['ig'][0] and g != 'w' else '') + '()'] if GEO[g] else [])], [ev(x) for x in L['ip']], [ev(x) for x in L['law']]), PyRunner(iterPeriod=1, initRun=True, command='vfcheck()'), NewtonIntegrator(damping=0)]
        self.cp = []; self.H = np.array([[10, 1, 0], [0, 10, 0], [0, .5, 10]], float)
        for n, (Q, o, u, sw) in enumerate(PCOPIES if self.p else COPIES):
            bs = []
            if g == 'w' and Q is not COPIES[0][0]: continue
            nds = [O.bodies.append(yg.gridNode(Vector3(*V(Q @ np.array(z) + o)), .12, material=gm, fixed=True)) for z in ((.375, -1.7, .05), (.375, 1.6, -.02))] if g == 'g' else None
            for k, (x, r) in enumerate((((0, 0, 0), R1), ((L.get('d', .917), 0, 0), R2))):
                mt = O.materials[ms[k]]; X = V(Q @ np.array(x) + o - (self.H @ np.array(PD[n], float) if k and self.p else 0))
                if k or g == 's': b = utils.sphere(X, r, material=mt, fixed=True)
                elif g == 'f': b = utils.facet([(.495, -1.6, -1.5), (.495, 1.4, -1.3), (.495, .1, 1.7)], material=mt, fixed=True); c = Q @ np.array(V(b.state.pos)) + o; b.state.pos = Vector3(*V(c))
                elif g == 'g': b = yg.gridConnection(nds[0], nds[1], .12, material=mt)
                elif g == 'b': b = utils.box(X, (.495, 1.3, 1.2), material=mt, fixed=True)
                elif g == 'd': b = utils.box(X, (.95, 1.3, 1.2), material=mt, fixed=True)
                elif g == 'w': b = utils.wall(Vector3(X[0] + .495, X[1], X[2]), axis=0, material=mt)
                if k or g != 'g': b.state.ori = quat(Q) * b.state.ori
                b.state.blockedDOFs = 'xyzXYZ'; bs.append(b)
            ids = [None, None]
            for k in ((1, 0) if sw else (0, 1)): ids[k] = O.bodies.append(bs[k])
            self.cp.append((Q, np.array(o, float), np.array(u, float), ids)); self.nd[ids[0]] = nds
        __main__.vfcheck = self.observe; self.op = 'o'; self.bad = None; self.G = np.zeros((3, 3)); self.sc = 1e-3; self.flow = 0; self.seen = 0; self.ref = None; self.last = None; self.turn = g != 'w' and l[:6] != 'lubric' and (g == 's' or l not in ('mindlin', 'mindlinM')); self.moved = self.moved0 = None
        O.step()
    def kin(self):
        """Velocities of the two bodies in the frame of the pair."""
        if self.op == 'o': return [np.zeros(3)] * 4
        if self.op == 'q':
            w = np.array([.8, -1.1, .9]); x = [self.loc(k) for k in (0, 1)]; c = .5 * (x[0] + x[1])
            return [np.cross(w, x[0] - c), np.cross(w, x[1] - c), w, w]
        v = [np.array(t, float) * V0 for t in OPS[self.op]]
        return v
    def loc(self, k):
        Q, o, u, ids = self.cp[0]; return Q.T @ (np.array(V(O.bodies[self.nd[ids[0]][0] if self.g == 'g' and not k else ids[k]].state.pos)) - o)
    def do(self, op):
        if op[0] == 'L': self.flow = 1; self.G = np.array([[.11, -.07, .03], [.05, -.13, .02], [-.04, .06, .09]]) if not self.G.any() else np.zeros((3, 3)); O.cell.velGrad = Matrix3(*[float(t) for t in self.G.ravel()]); self.op = 'o'
        else: self.op = op[0]
        for i in range(3):
            O.step()
            if self.bad: break
    def observe(self):
        """Runs after the contact laws: compare the forces, then impose the velocities of the next move."""
        self.seen += 1
        res = []; self.real = 0
        if self.p: h = O.cell.hSize; H = np.array([[h[i, j] for j in range(3)] for i in range(3)])
        for n, (Q, o, u, ids) in enumerate(self.cp):
            f = [np.array(V(O.forces.f(i, sync=True))) for i in ids]; t = [np.array(V(O.forces.t(i, sync=True))) for i in ids]; x = [np.array(V(O.bodies[i].state.pos)) for i in ids]
            if self.g == 'g':
                n1, n2 = self.nd[ids[0]]; x[0] = np.array(V(O.bodies[n1].state.pos)); x2 = np.array(V(O.bodies[n2].state.pos)); f1, f2, t1, t2 = [np.array(V(z)) for z in (O.forces.f(n1), O.forces.f(n2), O.forces.t(n1), O.forces.t(n2))]
                f[0] = f[0] + f1 + f2; t[0] = t[0] + t1 + t2 + np.cross(x2 - x[0], f2)
            real = O.interactions.has(ids[0], ids[1]) and O.interactions[ids[0], ids[1]].isReal
            d = x[1] - x[0]
            if self.p: d = d - H @ np.round(np.linalg.solve(H, d))
            s = max([abs(v) for w in f + t for v in w] + [0]); self.sc = max(self.sc, s)
            if not s < 1e12: self.bad = self.bad or 'copy %d: force %s' % (n, f)
            if np.abs(f[0] + f[1]).max() > 1e-9 * self.sc: self.bad = self.bad or 'copy %d, step %d: forces of the contact do not balance: %s on the first, %s on the second body' % (n, O.iter, f[0].tolist(), f[1].tolist())
            m = t[0] + t[1] + np.cross(d, f[1])
            if np.abs(m).max() > 1e-9 * self.sc: self.bad = self.bad or 'copy %d, step %d: moments of the contact do not balance: %s about the first body (torques %s, %s, force %s, branch %s)' % (n, O.iter, m.tolist(), t[0].tolist(), t[1].tolist(), f[1].tolist(), d.tolist())
            if self.L.get('coul') and real:
                p = O.interactions[ids[0], ids[1]].phys
                if V3n(p.shearForce) > V3n(p.normalForce) * p.tangensOfFrictionAngle * (1 + 1e-9) + 1e-12: self.bad = self.bad or 'copy %d, step %d: shear force %g above the friction limit %g' % (n, O.iter, V3n(p.shearForce), V3n(p.normalForce) * p.tangensOfFrictionAngle)
            if n == 0 and self.L.get('ref') and self.g == 's':
                e = self.refer(x, d)
                if np.abs(e - f[1]).max() > 1e-3 * self.sc: self.bad = self.bad or 'step %d: force on the second body is %s; elastic response with friction: %s' % (O.iter, f[1].tolist(), e.tolist())
            res.append((real, [Q.T @ w for w in f + t]))
        for n in range(1, len(res)):
            if self.flow and self.cp[n][0] is not self.cp[0][0]: continue
            if res[n][0] != res[0][0]: self.bad = self.bad or 'step %d: contact of copy %d is %s, of copy 0 %s' % (O.iter, n, res[n][0], res[0][0])
            if max(np.abs(a - b).max() for a, b in zip(res[n][1], res[0][1])) > self.L.get('tol', 1e-6) * self.sc: self.bad = self.bad or 'step %d: forces and torques of copy %d (in its own frame) are %s, of copy 0 %s' % (O.iter, n, [w.tolist() for w in res[n][1]], [w.tolist() for w in res[0][1]])
        # a common rotation (of the first copy) turns the forces along
        if self.moved == self.moved0 == 'q' and not self.flow and self.turn and res[0][0] and self.last and self.last[0]:
            kn = getattr(O.interactions[self.cp[0][3][0], self.cp[0][3][1]].phys, 'kn', None); tol = .05 * self.sc if kn is None else 4e-4 * kn + (.015 if self.g == 's' else .002) * self.sc
            Rw = rot(np.array([.8, -1.1, .9]) * DT)
            for a, b in zip(res[0][1], self.last[1]):
                if np.abs(a - Rw @ b).max() > tol: self.bad = self.bad or 'step %d: forces and torques after a common rotation are %s, before %s' % (O.iter, [w.tolist() for w in res[0][1]], [w.tolist() for w in self.last[1]]); break
        self.last = res[0]; self.moved0 = self.moved; self.moved = self.op
        self.real = res[0][0]
        k = self.kin()
        for n, (Q, o, u, ids) in enumerate(self.cp):
            for j in (0, 1):
                s = O.bodies[ids[j]].state; x = np.array(V(s.pos))
                s.vel = Vector3(*V(Q @ k[j] + u + self.G @ x)); s.angVel = Vector3(*V(Q @ k[2 + j]))
                if j == 0 and self.g == 'g':
                    n1, n2 = [O.bodies[i].state for i in self.nd[ids[0]]]; n1.vel = s.vel; n2.vel = s.vel + s.angVel.cross(n2.pos - n1.pos); n1.angVel = n2.angVel = s.angVel; s.vel = s.angVel = Vector3(0, 0, 0)
    def refer(self, x, d):
        """Reference for linear elasticity with friction: the force on the second body of copy 0."""
        b = [O.bodies[i].state for i in self.cp[0][3]]; dist = math.sqrt(d @ d); un = R1 + R2 - dist
        if un < 0: self.ref = None; return np.zeros(3)
        n = d / dist; p = O.interactions[self.cp[0][3][0], self.cp[0][3][1]].phys
        n0, fs = self.ref or (n, np.zeros(3)); w1, w2, v1, v2 = [np.array(V(t)) for t in (b[0].angVel, b[1].angVel, b[0].vel, b[1].vel)]
        fs = fs - np.cross(fs, np.cross(n0, n)); fs = fs - np.cross(fs, n * (.5 * DT * (n @ (w1 + w2))))
        if self.L['ref'] == 'noratch': v = (v2 - v1) * (R1 + R2) / dist + np.cross(w2, -R2 * n) - np.cross(w1, R1 * n)
        else: v = v2 + np.cross(w2, -(R2 - .5 * un) * n) - v1 - np.cross(w1, (R1 - .5 * un) * n)
        fs = fs - p.ks * DT * (v - n * (n @ v))   # on the second body: minus the relative displacement
        lim = p.kn * un * p.tangensOfFrictionAngle; a = math.sqrt(fs @ fs)
        if a > lim: fs = fs * lim / a
        self.ref = (n, fs); return p.kn * un * n + fs
    def check(self, m): return self.bad or (None if self.seen == O.iter else 'observed %d of %d steps' % (self.seen, O.iter))
def V3n(v): return math.sqrt(sum(x * x for x in v))
def quat(R):
    w = math.sqrt(max(0, 1 + R[0, 0] + R[1, 1] + R[2, 2])) / 2
    return Quaternion(w, float(R[2, 1] - R[1, 2]) / 4 / w, float(R[0, 2] - R[2, 0]) / 4 / w, float(R[1, 0] - R[0, 1]) / 4 / w)
S = M()
def jobs(tier): return prefixes(S, 1, cfgs())
def setup():
    global O, utils, yw, yg
    import yade.gridpfacet as yg
    import yade.wrapper as yw
    from yade import utils as ut
    for n in ('ForceResetter', 'InsertionSortCollider', 'Bo1_Sphere_Aabb', 'Bo1_Facet_Aabb', 'Bo1_Box_Aabb', 'Bo1_Wall_Aabb', 'InteractionLoop', 'PyRunner', 'NewtonIntegrator'): globals()[n] = getattr(yw, n)
    import minieigen
    for n in ('Vector3', 'Matrix3', 'Quaternion'): globals()[n] = getattr(minieigen, n)
    utils = ut; O = load()
def run(job, ctx): S.run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): S.replay_path(ctx, case[0], case[1])
