"""C15: cohesive bonds: strength, plastic flow, breakage, moments and energies against a reference evaluated step by step."""
import math
import numpy as np
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 5, 'thorough': 6}
CFG = dict(
 base=dict(ip='setCohesionNow=True', ops='atTAsSwr'),
 new=dict(ip='setCohesionOnNewContacts=True', ops='atTAszw'),
 none=dict(ops='atTAswci'),
 plast=dict(ip='setCohesionNow=True', a=dict(fragile=False), b=dict(fragile=False), umax=-1, ops='atTAsSw'),
 plastU=dict(ip='setCohesionOnNewContacts=True', a=dict(fragile=False), b=dict(fragile=False), umax=.0125, ops='atTAsS'),
 noncoh=dict(ip='setCohesionOnNewContacts=True', law='always_use_moment_law=True', b=dict(isCohesive=False), ops='atTAswrc'),
 incr=dict(ip='setCohesionNow=True', law='useIncrementalForm=True', a=dict(etaRoll=.006, etaTwist=.009), b=dict(etaRoll=.01, etaTwist=.006), ops='atswrzS'),
 incrA=dict(law='useIncrementalForm=True,always_use_moment_law=True', a=dict(etaRoll=.006, etaTwist=.009), b=dict(etaRoll=.01, etaTwist=.006), ops='atAswr'),
 creep=dict(ip='setCohesionNow=True', law='shear_creep=True,creep_viscosity=4e3', ops='atAsSz'),
 mixed=dict(ip='setCohesionNow=True', a=dict(young=2e6, poisson=.2, frictionAngle=.3, normalCohesion=3e4, shearCohesion=8e3, fragile=False, alphaKr=.3), b=dict(alphaKtw=.7), ops='atTAsSr'),
 mm=dict(ip="setCohesionNow=True,normalCohesion=MatchMaker(algo='val',val=25000),shearCohesion=MatchMaker(algo='val',val=10000),frictAngle=MatchMaker(algo='val',val=.3)", mm=(25000, 10000, .3), ops='atTAsc'),
 elast=dict(ip='setCohesionNow=True', a=dict(normalCohesion=-1, shearCohesion=-1), b=dict(normalCohesion=-1, shearCohesion=-1), ops='atTsSw'),
 nofr=dict(ip='setCohesionOnNewContacts=True', nofr=1, ops='atTAsS'),
 jc=dict(jc=1, ip='cohesiveTresholdIteration=1', f=1.02, ops='atTAsSw'),
 jcN=dict(jc=1, ip='cohesiveTresholdIteration=-1', f=1., ops='atTAsz'),
 jcM=dict(jc=1, ip='cohesiveTresholdIteration=3', f=1.01, a=dict(tensileStrength=9000., cohesion=900., young=2e6, frictionAngle=.3), ops='atTAsS'),
 jcS=dict(jc=1, ip='cohesiveTresholdIteration=-1', f=1., b=dict(tensileStrength=0.), ops='atTAsS'),
 jcT=dict(jc=1, ip='cohesiveTresholdIteration=-1', f=1., b=dict(type=2), ops='atAsS'),
 nomom=dict(ip='setCohesionNow=True', b=dict(momentRotationLaw=False), ops='atTswr'))
BOUNDS = {t: 'every sequence of %d (4 combinations) or %d moves (approach and separation by a small or large amount, shear in 3 directions, twist, rolling) and assignments of cohesion (to all contacts, to one contact) of two spheres, for %d combinations of materials and settings; 2 orders of the bodies' % (d, d - 1, len(CFG)) for t, d in DEPTH.items()}
RULE = 'a trace is one sequence of moves and assignments, one step each; in every step existence and state of the contact, force and torque on both bodies, elastic energies and plastic dissipation are compared with a reference which knows only materials, settings and motion'
ASSUMPTIONS = ['laws of cohesive frictional contacts with moments and of jointed cohesive frictional contacts (without joints), spheres with prescribed motion', 'forces agree to 1e-3 of the largest force so far', 'setCohesionNow is assigned when it reads back False', 'normal force while a bond slips in tension, and moments of bonds assigned anew in the incremental form are not compared']
R = (.5, .43); DT = .01
MAT = dict(young=1e6, poisson=.3, density=1000., frictionAngle=.5, alphaKr=.6, alphaKtw=.4, etaRoll=-1., etaTwist=-1., normalCohesion=17500., shearCohesion=11900., fragile=True, momentRotationLaw=True, isCohesive=True)
JMAT = dict(young=1e6, poisson=.3, density=1000., frictionAngle=.5, tensileStrength=5570., cohesion=1200., type=1)
N0 = np.array([.6, -.48, .64]); N0 /= np.linalg.norm(N0)
class M(Seq):
    def init(self, cfg): return {'c': cfg, 'ops': [], 'last': -9}
    def enabled(self, m):
        o = list(CFG[m['c'].split(':')[0]]['ops'])
        return o
    def step(self, m, op):
        if op == 'c': m['last'] = len(m['ops'])
        m['ops'].append(op); return None
    def key(self, m): return ''.join(m['ops'])
    def outcome(self, m): return self.cls
    def reset(self, cfg):
        k, sw = cfg.split(':'); C = self.C = CFG[k]; sw = int(sw)
        O.reset(); O.dt = DT
        jc = self.jc = C.get('jc')
        self.mt = [dict(JMAT if jc else MAT, **C.get(x, {})) for x in 'ab']
        ms = [O.materials.append((yw.JCFpmMat if jc else yw.CohFrictMat)(**x)) for x in self.mt]
        if jc: self.ip = eval('Ip2_JCFpmMat_JCFpmMat_JCFpmPhys(%s)' % C['ip'], vars(yw)); self.law = yw.Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM()
        else: self.ip = eval('Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(%s)' % C.get('ip', ''), vars(yw)); self.law = eval('Law2_ScGeom6D_CohFrictPhys_CohesionMoment(traceEnergy=True%s)' % (',' + C['law'] if 'law' in C else ''), vars(yw))
        O.engines = [yw.ForceResetter(), yw.InsertionSortCollider([yw.Bo1_Sphere_Aabb(aabbEnlargeFactor=1.1)], verletDist=0), yw.InteractionLoop([yw.Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=C['f']) if jc else yw.Ig2_Sphere_Sphere_ScGeom6D()], [self.ip], [self.law]), yw.NewtonIntegrator(damping=0)]
        X = (np.zeros(3), N0 * (R[0] + R[1] - .0045)); self.b = [None, None]
        for j in ((1, 0) if sw else (0, 1)):
            b = utils.sphere(V(X[j]), R[j], material=O.materials[ms[j]], fixed=True); b.state.blockedDOFs = 'xyzXYZ'; O.bodies.append(b); self.b[j] = b
        self.c = None; self.sc = 1e-3; self.bad = None; self.cls = ''; self.diss = 0.
        self.now = 'setCohesionNow' in C.get('ip', ''); self.one = False
        A, B = self.mt; E = [m['young'] * r for m, r in zip(self.mt, R)]; h = lambda a, b: 2 * a * b / (a + b) if a and b else 0
        self.kn = h(*E); self.ks = h(E[0] * A['poisson'], E[1] * B['poisson'])
        if jc:
            self.tan = math.tan(min(A['frictionAngle'], B['frictionAngle'])); ar = math.pi * min(R) ** 2; self.an, self.as_ = [min(A[x], B[x]) * ar for x in ('tensileStrength', 'cohesion')]; self.coh = (self.an > 0 or self.as_ > 0) and A['type'] == B['type']; self.crk = [0, 0]; self.ini = 0; self.dam = 0.; self.it = 0; self.thr = int(C['ip'].split('=')[1]); self.one_step('0'); return
        self.kr, self.kt = [R[0] * R[1] * self.ks * h(A[x], B[x]) for x in ('alphaKr', 'alphaKtw')]
        mm = C.get('mm'); r2 = min(R) ** 2
        self.an, self.as_, fa = ([mm[0] * r2, mm[1] * r2, mm[2]] if mm else [min(A['normalCohesion'], B['normalCohesion']) * r2, min(A['shearCohesion'], B['shearCohesion']) * r2, min(A['frictionAngle'], B['frictionAngle'])]); self.tan = math.tan(fa)
        self.roll, self.tw = [min(m[x] * r for m, r in zip(self.mt, R)) for x in ('etaRoll', 'etaTwist')]
        self.moml = A['momentRotationLaw'] and B['momentRotationLaw']; self.coh = A['isCohesive'] and B['isCohesive']; self.frag = A['fragile'] or B['fragile']
        L = C.get('law', ''); self.always = 'always' in L; self.incr = 'useInc' in L; self.creep = 4e3 if 'creep' in L else 0
        self.one_step('0')
    def do(self, op):
        self.one_step(op)
        if self.bad: return
    def final(self, m):
        self.one_step('0'); return self.bad
    def check(self, m): return self.bad
    def one_step(self, op):
        s = [b.state for b in self.b]; x = [np.array(V(t.pos)) for t in s]; n = x[1] - x[0]; n /= math.sqrt(n @ n)
        e1 = np.cross(n, (.3, .1, -.9)); e1 /= math.sqrt(e1 @ e1); e2 = np.cross(n, e1); z = np.zeros(3); v = [z, z, z, z]
        if op == 'a': v = [z, -.004 * n, z, z]
        elif op == 't': v = [-.0032 * n, .0011 * n, z, z]
        elif op == 'T': v = [z, .0121 * n, z, z]
        elif op == 'A': v = [.0117 * n, z, z, z]
        elif op == 's': v = [z, .0157 * e1, z, z]
        elif op == 'S': v = [.012 * e1, -.0037 * e1, z, z]
        elif op == 'z': v = [z, .0087 * e2, z, z]
        elif op == 'w': v = [z, z, z, .021 * n]
        elif op == 'r': v = [z, z, .013 * e2, -.004 * e2]
        elif op == 'c':
            if not self.ip.setCohesionNow: self.ip.setCohesionNow = True; self.now = True
        elif op == 'i':
            if self.c: O.interactions[0, 1].phys.initCohesion = True; self.one = True
        v = [t / DT for t in v]
        for j in (0, 1): s[j].vel = Vector3(*V(v[j])); s[j].angVel = Vector3(*V(v[2 + j]))
        q = [t.ori for t in s]; q = [Quaternion(t) for t in q]
        F, T1, T2 = (self.jcref if self.jc else self.reference)(x, n, v, q)
        O.step()
        f = [np.array(V(O.forces.f(b.id, sync=True))) for b in self.b]; t = [np.array(V(O.forces.t(b.id, sync=True))) for b in self.b]
        real = O.interactions.has(0, 1) and O.interactions[0, 1].isReal
        self.sc = max(self.sc, np.abs(f[1]).max()); tol = 1e-3 * self.sc + 1e-9; c = self.c
        def bad(t): self.bad = self.bad or 'step %d (%s): %s' % (O.iter, op, t)
        if bool(real) != bool(c): bad('contact %s, reference %s' % ('exists' if real else 'does not exist', 'exists' if c else 'does not exist')); return
        if c and not self.jc and c['free']: F = c['fs'] + n * (n @ f[1]); un = R[0] + R[1] - np.linalg.norm(x[1] - x[0]); T2 = np.cross(-n * (R[1] - .5 * un), F) + c['mom']; T1 = np.cross(n * (R[0] - .5 * un), -F) - c['mom']
        for w, a, e in (('force on the second body', f[1], F), ('force on the first body', f[0], -F), ('torque on the second body', t[1], T2), ('torque on the first body', t[0], T1)):
            if not np.abs(a - e).max() <= tol: bad('%s is %s, reference %s' % (w, a.tolist(), e.tolist()))
        if self.jc:
            L = self.law
            if [L.nbTensCracks, L.nbShearCracks] != self.crk: bad('%d tensile and %d shear cracks counted, reference %s' % (L.nbTensCracks, L.nbShearCracks, self.crk))
            for b in self.b:
                if (b.state.nbInitBonds, b.state.nbBrokenBonds) != (self.ini, sum(self.crk)): bad('bonds of body %d: %d made, %d broken, reference %d, %d' % (b.id, b.state.nbInitBonds, b.state.nbBrokenBonds, self.ini, sum(self.crk)))
                if abs(b.state.damageIndex - self.dam) > 1e-9: bad('damage of body %d is %r, reference %r' % (b.id, b.state.damageIndex, self.dam))
            if c:
                p = O.interactions[0, 1].phys
                if p.isCohesive != c['coh']: bad('bond is %s, reference %s' % (p.isCohesive, c['coh']))
            self.cls = 'j' + ('none' if not c else 'bond' if c['coh'] else 'free') + str(self.crk); return
        if c:
            p = O.interactions[0, 1].phys
            if p.cohesionBroken != c['broken']: bad('bond is %s, reference %s' % ('broken' if p.cohesionBroken else 'intact', 'broken' if c['broken'] else 'intact'))
            if abs(p.normalAdhesion - c['an']) > 1e-9 * abs(c['an']) or abs(p.shearAdhesion - c['as']) > 1e-9 * abs(c['as']): bad('strength is %r, %r, reference %r, %r' % (p.normalAdhesion, p.shearAdhesion, c['an'], c['as']))
            L = self.law
            if not c['free']:
                for w, a, e in (('normal', L.normElastEnergy(), .5 * c['Fn'] ** 2 / self.kn), ('shear', L.shearElastEnergy(), .5 * c['fs'] @ c['fs'] / self.ks)) + ((('bending', L.bendingElastEnergy(), .5 * c['mb'] @ c['mb'] / self.kr), ('twist', L.twistElastEnergy(), .5 * c['mt'] @ c['mt'] / self.kt)) if c['act'] else ()):
                    if abs(a - e) > 2e-3 * self.sc ** 2 / self.kn: bad('%s elastic energy is %r, reference %r' % (w, a, e))
                a = L.elasticEnergy(); e = sum((L.normElastEnergy(), L.shearElastEnergy(), L.bendingElastEnergy(), L.twistElastEnergy()))
                if abs(a - e) > 1e-9 * abs(e): bad('total elastic energy is %r, sum of parts %r' % (a, e))
            if self.C.get('nofr'): p.cohesionDisablesFriction = True; c['nofr'] = True
            if 'umax' in self.C: p.unpMax = c['umax'] = self.C['umax']
        a = self.law.plasticDissipation()
        if abs(a - self.diss) > 3e-3 * self.sc ** 2 / self.ks: bad('plastic dissipation is %r, reference %r' % (a, self.diss))
        self.cls = 'none' if not c else 'broken' if c['broken'] else 'slip' if c['slip'] else 'bond'
    def jcref(self, x, n, v, q):
        z = np.zeros(3); d = x[1] - x[0]; dist = math.sqrt(d @ d); un = R[0] + R[1] - dist; c = self.c; it = self.it; self.it += 1
        if not c:
            if dist >= self.C['f'] * (R[0] + R[1]): return z, z, z
            coh = self.coh and (self.thr < 0 or it < self.thr); c = self.c = dict(fs=z, n=n, d0=un, coh=coh, an=self.an if coh else 0, as_=self.as_ if coh else 0)
            if coh: self.ini += 1
        D = un - c['d0']; brk = None
        if D < 0 and not c['coh']: self.c = None; return z, z, z
        if D < 0 and c['an'] > 0 and -D > c['an'] / self.kn: self.crk[0] += 1; self.dam += 1. / self.ini; self.c = None; return z, z, z
        v1, v2, w1, w2 = v; fs = c['fs']; fs = fs - np.cross(fs, np.cross(c['n'], n)); fs = fs - np.cross(fs, n * (.5 * DT * (n @ (w1 + w2))))
        u = (v2 - v1) * (R[0] + R[1]) / dist + np.cross(w2, -R[1] * n) - np.cross(w1, R[0] * n)
        fs = fs - self.ks * DT * (u - n * (n @ u)); Fn = self.kn * D; lim = c['as_'] + Fn * self.tan; a = math.sqrt(fs @ fs)
        if a > lim:
            fs = fs * (lim / a) if a else z
            if c['coh']:
                self.crk[1] += 1; self.dam += 1. / self.ini; c.update(coh=False, an=0, as_=0)
                if D < 0: self.c = None; return z, z, z
        c['fs'] = fs; c['n'] = n; F = Fn * n + fs
        return F, np.cross(n * (R[0] - .5 * un), -F), np.cross(-n * (R[1] - .5 * un), F)
    def reference(self, x, n, v, q):
        z = np.zeros(3); d = x[1] - x[0]; dist = math.sqrt(d @ d); un = R[0] + R[1] - dist; c = self.c; now, one = self.now, self.one
        if not c and un <= 0: return z, z, z   # setCohesionNow stays on until there are contacts
        self.now = self.one = False
        if not c:
            c = self.c = dict(fs=z, n=n, unp=0., an=0., broken=True, fragile=True, q=q, mt=z, mb=z, umax=0., nofr=False); c['as'] = 0.
            init = self.coh and (now or 'OnNew' in self.C.get('ip', ''))
        else: init = (self.coh and now) or one
        if init: c.update(broken=False, an=self.an, fragile=self.frag, q=q); c['as'] = self.as_
        c['slip'] = c['free'] = False; c['mom'] = z; c['act'] = False
        Fn = self.kn * (un - c['unp'])
        if c['an'] >= 0 and -Fn > c['an']:
            if c['fragile']: self.c = None; return z, z, z
            Fn = -c['an']; c['unp'] = un + c['an'] / self.kn
            if c['umax'] >= 0 and -c['unp'] > c['umax']: self.c = None; return z, z, z
        fs, n0 = c['fs'], c['n']; v1, v2, w1, w2 = v
        if self.creep: fs = fs * (1 - self.ks * DT / self.creep)
        turn = lambda t: (lambda t: t - np.cross(t, n * (.5 * DT * (n @ (w1 + w2)))))(t - np.cross(t, np.cross(n0, n)))
        fs = turn(fs)
        u = (v2 - v1) * (R[0] + R[1]) / dist + np.cross(w2, -R[1] * n) - np.cross(w1, R[0] * n)
        fs = fs - self.ks * DT * (u - n * (n @ u)); a = math.sqrt(fs @ fs)
        lim = c['as'] + (Fn * self.tan if not c['nofr'] or c['as'] == 0 else 0); lim = max(lim, 0.)
        if c['as'] >= 0 and a > lim:
            c['slip'] = True
            if c['fragile'] and not c['broken']: c.update(broken=True, an=0.); c['as'] = 0.; lim = max(0., Fn * self.tan)
            new = fs * lim / a; self.diss += max(0., (fs - new) @ new / self.ks); fs = new
        if c['as'] >= 0 and Fn < 0 and a > lim * (1 - 1e-6): c['free'] = True
        c['fs'] = fs; c['Fn'] = Fn; F = Fn * n + fs
        if self.moml and (not c['broken'] or self.always):
            c['act'] = True
            if self.incr:
                w = (w2 - w1) * DT; wt = n * (n @ w)
                c['mt'] = turn(c['mt']) - self.kt * wt; c['mb'] = turn(c['mb']) - self.kr * (w - wt)
            else:
                D = (q[1] * c['q'][1].conjugate()) * (q[0] * c['q'][0].conjugate()).conjugate(); ax, an = D.toAxisAngle()
                if an > math.pi: an -= 2 * math.pi
                th = np.array(V(ax)) * an; tt = n * (n @ th); c['mt'] = -self.kt * tt; c['mb'] = -self.kr * (th - tt)
            for k, mx in (('mb', self.roll), ('mt', self.tw)):
                a = math.sqrt(c[k] @ c[k])
                if mx >= 0 and a > mx * abs(Fn): c[k] = c[k] * (mx * abs(Fn) / a)
            c['mom'] = c['mt'] + c['mb']
        c['n'] = n
        return F, np.cross(n * (R[0] - .5 * un), -F) - c['mom'], np.cross(-n * (R[1] - .5 * un), F) + c['mom']
S = M()
def jobs(tier): return prefixes(S, 2, [k + s for k in CFG for s in (':0', ':1')])
def depth(cfg, tier): return DEPTH[tier] - (0 if cfg in ('base:0', 'plast:0', 'noncoh:0', 'jc:0') else 1)
def setup():
    global O, utils, yw, Vector3, Quaternion
    import yade.wrapper as yw
    from yade import utils as ut
    import minieigen
    Vector3, Quaternion = minieigen.Vector3, minieigen.Quaternion
    utils = ut; O = load()
def run(job, ctx): S.run(job, ctx, depth(job[0], ctx.tier))
def replay(case, ctx): S.replay_path(ctx, case[0], case[1])
