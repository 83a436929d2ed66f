"""C13: laws of motion over all bounded histories of loads, constraints and settings, on a scene holding every combination of blocked degrees of freedom."""
import math, __main__
import numpy as np
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 3, 'thorough': 5}
BOUNDS = {t: 'every sequence of %d operations (step, load pulse, permanent loads, gravity, damping, damping per body, blocked DOFs changed, mask, time step, velocities set, imposed moves, velocity gradient), each followed by a step, in 8 settings (open; periodic with homoDeform 0,1,2; aspherical integrator off; density scaling; tracked energy, also split) of a scene with all 64 sets of blocked DOFs for round bodies, 24 aspherical bodies (all sets of blocked translations), and 4 clumps' % d for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence; after each step velocity, position, orientation, angular momentum of all bodies and the tracked energies are compared with the laws of motion'
ASSUMPTIONS = ['bodies do not touch', 'values such that the sign in the numerical damping is never that of a rounding error', 'aspherical bodies keep either all rotations free or some blocked', 'dissipation by damping is only required to be non-negative and zero without damping']
CF = ['o', 'oA', 'oD', 'oE', 'oS', 'p0', 'p1', 'p2']
def qmul(a, b):  # (w,x,y,z)
    w, x, y, z = a; W, X, Y, Z = b
    return np.array([w * W - x * X - y * Y - z * Z, w * X + x * W + y * Z - z * Y, w * Y - x * Z + y * W + z * X, w * Z + x * Y - y * X + z * W])
def qrot(v):
    n = math.sqrt(v @ v)
    if n == 0: return np.array([1., 0, 0, 0])
    s = math.sin(n / 2) / n
    return np.array([math.cos(n / 2), v[0] * s, v[1] * s, v[2] * s])
def rmat(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])
def unit(q): return q / math.sqrt(q @ q)
def dotq(q, wl): return .5 * qmul(q, np.array([0., *wl]))   # wl in the local frame
def h(i, k):  # irregular, reproducible numbers in (-1,1), never near zero
    x = math.sin(12.9898 * (i + 1) + 78.233 * (k + 1)) * 43758.5453; x = x - math.floor(x)
    return (.15 + .85 * x) * (1 if math.sin(3.7 * i + 1.3 * k + .5) > 0 else -1)
def hv(i, k): return np.array([h(i, 3 * k), h(i, 3 * k + 1), h(i, 3 * k + 2)])
N = 64
DOFS = 'xyzXYZ'
class B: pass
class M(Seq):
    """The model is the state of the bodies by the laws of motion, evaluated lazily: step() only records the operation."""
    def init(self, cfg): return {'c': cfg, 'ops': []}
    def enabled(self, m):
        o = ['s', 'F', 'P', 'G', 'D', 'd', 'B', 'M', 'T', 'V', 'm']
        if m['c'][0] == 'p': o.append('L'); o.append('Z')
        return [[x] for x in o]
    def step(self, m, op): m['ops'].append(op[0]); return None
    def key(self, m): return ''.join(m['ops']) + m['c']
    def outcome(self, m): return ''.join(sorted(m['ops']))
    def reset(self, cfg):
        O.reset(); O.dt = .0078125
        if cfg[0] == 'p':
            O.periodic = True; O.cell.setBox(64, 48, 56); O.cell.homoDeform = int(cfg[1])
        self.nw = NewtonIntegrator(damping=0, gravity=(0, 0, 0), exactAsphericalRot=cfg != 'oA', kinSplit=cfg == 'oS', warnNoForceReset=False)
        __main__.vfapply = self.apply; self.q = []; O.engines = [ForceResetter(), PyRunner(iterPeriod=1, initRun=True, command='vfapply()')] + ([GlobalStiffnessTimeStepper(active=False)] if cfg == 'oD' else []) + [self.nw]
        if cfg == 'oD': self.nw.densityScaling = True
        if cfg in ('oE', 'oS'): O.trackEnergy = True
        self.bs = []
        from minieigen import Vector3, Quaternion, Matrix3
        for i in range(N + 24):
            b = utils.sphere((0, 0, 0), .5); O.bodies.append(b)
            st = b.state; r = B(); r.id = b.id; r.i = i
            r.pos = hv(i, 1) * 8; r.vel = hv(i, 2); r.w = hv(i, 3); r.ori = unit(np.array([1., *hv(i, 4)])); r.dof = i % N if i < N else i % 8 if i < N + 16 else (i * 7) % 64 | 8; r.asph = i >= N
            r.m = 1.5 + h(i, 30) * .5; r.I = np.array([1.2, 1.2, 1.2]) if not r.asph else np.array([1., 1.7, 2.3]); r.L = np.zeros(3)
            r.damped = True; r.mask = 1 + i % 3; r.P = None; r.dead = False; r.members = None
            if r.asph: b.aspherical = True
            if r.asph and cfg != 'oA' and not r.dof >> 3: R = rmat(r.ori); r.L = R @ (r.I * (R.T @ r.w))
            st.mass = r.m; st.inertia = Vector3(*r.I); b.groupMask = r.mask
            st.pos = Vector3(*r.pos); st.vel = Vector3(*r.vel); st.angVel = Vector3(*r.w); st.angMom = Vector3(*r.L); st.ori = Quaternion(*r.ori)
            st.blockedDOFs = ''.join(c for k, c in enumerate(DOFS) if r.dof >> k & 1)
            self.bs.append(r)
        for j, n in enumerate((2, 3, 6, 2)):
            mem = []
            for k in range(n):
                p = {2: [(0, 0, .7), (0, 0, -.7)], 3: [(0, 0, 0), (1.2, 0, 0), (0, 1.3, 0)], 6: [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]}[n][k]
                mem.append(utils.sphere(tuple(np.array(p) + hv(j, 50) * 6), .4 + .1 * (k == 1 and n < 6)))
            cid, mids = O.bodies.appendClumped(mem)
            cb = O.bodies[cid]; st = cb.state; r = B(); r.id = cid; r.i = 200 + j
            r.pos = np.array(V(st.pos)); r.ori = np.array([st.ori[3], st.ori[0], st.ori[1], st.ori[2]]); r.m = st.mass; r.I = np.array(V(st.inertia)); r.asph = bool(cb.aspherical)
            r.vel = hv(j, 51); r.w = hv(j, 52); r.L = np.zeros(3); r.dof = 0 if j < 3 else 0b101010; r.damped = True; r.mask = 2; r.P = None; cb.groupMask = 2
            R = rmat(r.ori); r.members = [(q, R.T @ (np.array(V(O.bodies[q].state.pos)) - r.pos)) for q in mids]
            if r.asph and cfg != 'oA' and not r.dof >> 3: r.L = R @ (r.I * (R.T @ r.w))
            st.vel = Vector3(*r.vel); st.angVel = Vector3(*r.w); st.angMom = Vector3(*r.L); st.blockedDOFs = ''.join(c for k, c in enumerate(DOFS) if r.dof >> k & 1)
            self.bs.append(r)
        for r in self.bs:
            r.ds = 1.
            if cfg == 'oD': r.ds = .55 + .45 * h(r.i, 33); O.bodies[r.id].state.densityScaling = r.ds
        self.g = np.zeros(3); self.damp = 0.; self.mask = -1; self.dt = .0078125; self.cfg = cfg; self.t = 0; self.E = {'gravWork': 0., 'damp': 0.}
        self.Lv = np.zeros((3, 3)); self.pL = np.zeros((3, 3)); self.nm = 0
    def do(self, op):
        from minieigen import Vector3, Quaternion, Matrix3
        self.F = {}; self.Tq = {}; self.mv = {}; self.rt = {}; k = op[0]; self.t += 1; t = self.t
        if k == 'F':
            for r in self.bs:
                if r.members:
                    for (q, _) in r.members:
                        f = hv(q, 60 + t); T = hv(q, 70 + t) * .4; self.q.append((O.forces.addF, q, Vector3(*f))); self.q.append((O.forces.addT, q, Vector3(*T))); self.F[q] = f; self.Tq[q] = T
                    if r.i % 2: f = hv(r.i, 61); self.q.append((O.forces.addF, r.id, Vector3(*f))); self.F[r.id] = f
                elif r.i % 5:
                    f = hv(r.i, 60 + t) * 2; T = hv(r.i, 70 + t); self.q.append((O.forces.addF, r.id, Vector3(*f))); self.q.append((O.forces.addT, r.id, Vector3(*T))); self.F[r.id] = f; self.Tq[r.id] = T
        elif k == 'P':
            for r in self.bs:
                if not r.members:
                    r.P = None if r.P is not None else (hv(r.i, 80), hv(r.i, 81))
                    f, T = r.P if r.P is not None else (np.zeros(3), np.zeros(3))
                    O.forces.setPermF(r.id, Vector3(*f)); O.forces.setPermT(r.id, Vector3(*T))
        elif k == 'G': self.g = np.array([.3, -1.1, 9.81]) if not self.g.any() else np.zeros(3); self.nw.gravity = Vector3(*self.g)
        elif k == 'D': self.damp = .3 if not self.damp else 0.; self.nw.damping = self.damp
        elif k == 'd':
            for r in self.bs[::2] + self.bs[-2:]: r.damped = not r.damped; O.bodies[r.id].state.isDamped = r.damped
        elif k == 'B':
            for r in self.bs:
                d = (r.dof * 5 + 37) % 64
                if r.asph and self.cfg != 'oA': d = d & 7 | (r.dof >> 3 and (d | 8) & 56)
                r.dof = d; O.bodies[r.id].state.blockedDOFs = ''.join(c for j, c in enumerate(DOFS) if d >> j & 1)
        elif k == 'M': self.mask = 2 if self.mask < 0 else -1; self.nw.mask = self.mask
        elif k == 'T': self.dt /= 2; O.dt = self.dt
        elif k == 'V':
            for r in self.bs:
                st = O.bodies[r.id].state
                r.vel = hv(r.i, 90 + t); st.vel = Vector3(*r.vel)
                if self.useA(r): r.L = hv(r.i, 95 + t) * 2; st.angMom = Vector3(*r.L)
                else: r.w = hv(r.i, 95 + t); st.angVel = Vector3(*r.w)
        elif k == 'm':
            self.nm = 1
            for r in self.bs:
                if r.i % 3 and not r.members:
                    if r.i % 2: v = hv(r.i, 97) * .1; self.q.append((O.forces.addMove, r.id, Vector3(*v))); self.mv[r.id] = v
                    v = hv(r.i, 98) * .1; self.q.append((O.forces.addRot, r.id, Vector3(*v))); self.rt[r.id] = v
        elif k in 'LZ':
            self.Lv = np.array([[.11, -.07, .03], [.05, -.13, .02], [-.04, .06, .09]]) * (1 + .25 * t) if k == 'L' else np.zeros((3, 3))
            O.cell.velGrad = Matrix3(*[float(x) for x in self.Lv.ravel()])
        self.advance()
        self.E['damp'] = dict(O.energy.items()).get('nonviscDamp', 0.) if self.cfg in ('oE', 'oS') else 0.
        O.step()
    def apply(self):
        for f, i, v in self.q: f(i, v)
        self.q = []
    def useA(self, r): return r.asph and self.cfg != 'oA' and not r.dof >> 3
    def advance(self):
        """One step of the reference motion."""
        dt = self.dt; per = self.cfg[0] == 'p'; hd = int(self.cfg[1]) if per else 0
        dL = self.Lv - self.pL; W = .5 * (dL - dL.T); dspin = np.array([W[2, 1], W[0, 2], W[1, 0]])
        Et = Er = gw = dis = 0.
        for r in self.bs:
            f = np.zeros(3); T = np.zeros(3); R = rmat(r.ori)
            if r.members:
                for q, p in r.members:
                    fq = self.F.get(q, np.zeros(3)); f = f + fq; T = T + self.Tq.get(q, 0) + np.cross(R @ p, fq)
            f = f + self.F.get(r.id, 0); T = T + self.Tq.get(r.id, 0)
            if r.P is not None: f = f + r.P[0]; T = T + r.P[1]
            u = r.vel - self.pL @ r.pos if per else r.vel
            Et += .5 * r.m * (u @ u); Ig = R @ np.diag(r.I) @ R.T; Er += .5 * r.w @ Ig @ r.w; gw -= r.m * (self.g @ r.vel) * dt
            fl = np.array([0. if r.dof >> k & 1 else 1. for k in range(3)]); fr = np.array([0. if r.dof >> (3 + k) & 1 else 1. for k in range(3)])
            d = self.damp if r.damped else 0.
            if d: dis += 1
            A = self.useA(r)
            a = (f / r.m + self.g) * fl * r.ds; a = a * (1 - d * np.sign(a * (u + .5 * dt * a)))
            if hd > 1: a = a + self.pL @ r.vel
            r.vel = r.vel + dt * a
            if not A: al = T / r.I * fr * r.ds; al = al * (1 - d * np.sign(al * (r.w + .5 * dt * al))); r.w = r.w + dt * al
            else: T = T * (1 - d * np.sign(T * r.w))
            if self.nm and r.id in self.mv: r.pos = r.pos + self.mv[r.id]
            if hd: r.vel = r.vel + dL @ r.pos
            free = self.mask <= 0 or r.mask & self.mask
            if free: r.pos = r.pos + dt * r.vel
            rt = self.rt.get(r.id, np.zeros(3))
            if not A:
                if hd: r.w = r.w + dspin
                if free: r.ori = unit(qmul(qrot(rt), qmul(qrot(r.w * dt), r.ori)))
            else:
                RT = R.T; wn = (RT @ (r.L + dt / 2 * T)) / r.I * r.ds
                qh = r.ori + dt / 2 * dotq(r.ori, wn)
                r.L = r.L + dt * T; wh = (RT @ r.L) / r.I * r.ds
                q = r.ori + dt * dotq(qh, wh)
                r.w = rmat(unit(q)) @ wh; self.qA = q
                if free: r.ori = unit(qmul(qrot(rt), q))
        self.pL = self.Lv.copy(); self.E['gravWork'] += gw; self.E['kinTrans'] = Et; self.E['kinRot'] = Er; self.E['dis'] = dis
    def check(self, m):
        if m['ops'] and O.iter != len(m['ops']): return 'step %d' % O.iter
        for r in self.bs:
            st = O.bodies[r.id].state
            o = np.array([st.ori[3], st.ori[0], st.ori[1], st.ori[2]])
            if o @ r.ori < 0: o = -o
            for nm, got, exp, tol in (('velocity', st.vel, r.vel, 1e-10), ('position', st.pos, r.pos, 1e-10), ('orientation', o, r.ori, 1e-10), ('angular velocity', st.angVel, r.w, 1e-3 if self.useA(r) else 1e-10), ('angular momentum', st.angMom, r.L, 1e-10)):
                if nm == 'angular momentum' and not self.useA(r): continue
                g = np.array([got[k] for k in range(len(exp))])
                if not np.abs(g - exp).max() <= tol * (1 + np.abs(exp).max()):
                    return '%s of body %d (%s, blocked %r, mask %d%s) is %s; by the laws of motion %s' % (nm, r.id, 'clump' if r.members else 'aspherical' if r.asph else 'sphere', ''.join(c for k, c in enumerate(DOFS) if r.dof >> k & 1), r.mask, '' if r.damped else ', not damped', g.tolist(), exp.tolist())
            if r.members:
                R = rmat(r.ori)
                for q, p in r.members:
                    ms = O.bodies[q].state; d = R @ p
                    if np.abs(np.array(V(ms.pos)) - r.pos - d).max() > 1e-9: return 'member %d of clump %d is at %s, expected %s' % (q, r.id, V(ms.pos), (r.pos + d).tolist())
                    if np.abs(np.array(V(ms.vel)) - r.vel - np.cross(r.w, d)).max() > 1e-3 or np.abs(np.array(V(ms.angVel)) - r.w).max() > 1e-3: return 'velocity of member %d is not that of its clump' % q
        if self.cfg in ('oE', 'oS'):
            e = dict(O.energy.items())
            exp = {'kinTrans': self.E['kinTrans'], 'kinRot': self.E['kinRot']} if self.cfg == 'oS' else {'kinetic': self.E['kinTrans'] + self.E['kinRot']}
            exp['gravWork'] = self.E['gravWork']
            for k in exp:
                if not close(e.get(k, 0.), exp[k], 1e-4, 1e-5): return 'tracked energy %s is %r, expected %r' % (k, e.get(k), exp[k])
            dd = e.get('nonviscDamp', 0.)
            if dd < self.E['damp'] or (dd > self.E['damp'] and not self.E['dis']): return 'energy dissipated by damping went from %r to %r (%s damped bodies)' % (self.E['damp'], dd, self.E['dis'])
S = M()
def jobs(tier): return prefixes(S, 2, CF)
def setup():
    global O, utils, PyRunner, NewtonIntegrator, ForceResetter, GlobalStiffnessTimeStepper
    from yade.wrapper import GlobalStiffnessTimeStepper, PyRunner, NewtonIntegrator, ForceResetter
    from yade import utils
    O = load()
def run(job, ctx): S.run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): S.replay_path(ctx, case[0], case[1])
