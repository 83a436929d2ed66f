"""C16: with several OpenMP threads a step gives what it gives with one, whichever thread takes which iteration, in whatever interleaving."""
import ctypes, os, sys
from vf.yd import *
LEVEL = 'model_checking'
LIM = 260
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); T_ = V + '/.cache/t'
ENV = {'LD_PRELOAD': T_ + '/libvgomp.so'}
# (scene, threads, memory accesses as scheduling points, bound on deviations from the default schedule, number of jobs)
SCN = ['plain', 'grow', 'growpast', 'energy', 'clump', 'per', 'coh', 'hertz', 'visc', 'facet', 'kin', 'stiff', 'erase']
# (scene, threads, switch at memory accesses, base schedule (0: one thread goes on, 1: iterations dealt round robin), bound on deviations, jobs)
def plan(tier):
    q = tier == 'quick'; out = []
    for s in SCN:
        big = s == 'grow'
        out += [(s, 2, 0, 0, 1 if big else 2 if q else 3, 1 if q else 8), (s, 2, 1, 1, 1 if big else 2, 4 if q else 8), (s, 3, 1, 1, 1, 1 if q else 2)]
        if not q: out += [(s, 2, 1, 0, 1 if big else 2, 8), (s, 3, 0, 1, 2, 8), (s, 4, 1, 1, 1, 4)]
    out += [('sort', 2, 0, 1, 1, 2), ('sort', 3, 0, 1, 1, 2)]
    return out
BOUNDS = {'quick': '13 scenes, 2-3 steps; 2 threads: all schedules with at most 2 deviations from the default one, switching at loop iterations, critical sections and mutexes, and (base schedule round robin) also at every access to shared memory where there are at most 260 such points, else 1 deviation; 3 threads: 1 deviation at shared memory accesses; a scene of 1100 bodies (parallel sort) with 1 deviation',
          'thorough': 'the same with 3 / 2 deviations, and 2 at shared memory accesses'}
RULE = 'a trace is one schedule of the real library under the controlled OpenMP runtime; contacts, forces, positions, velocities, energies and engine results are compared with the run with one thread'
ASSUMPTIONS = ['sequentially consistent memory', 'scheduling points at memory accesses cover the translation units with parallel code (19 units, listed in bin/vbuild.py), at code locations seen to conflict', 'reference counts are atomic', 'sums may differ in the last bits (relative tolerance 1e-9)']
BUDGET = {'quick': 800, 'thorough': 6 * 3600}
def prepare(env, tier):
    sys.path.insert(0, V + '/bin'); import vbuild
    if vbuild.build_t(): raise SystemExit(3)
def jobs(tier): return [[s, T, m, bs, P, k, K] for s, T, m, bs, P, K in plan(tier) for k in range(K)]
def build(s):
    O.reset(); O.dt = 1e-4; B = O.bodies; sp = utils.sphere
    if s in ('coh',): mat = CohFrictMat(young=1e6, density=1000, frictionAngle=.5, normalCohesion=1e4, shearCohesion=1e4, momentRotationLaw=True)
    elif s == 'visc': mat = ViscElMat(density=1000, frictionAngle=.4, kn=1e5, cn=20, ks=5e4, cs=10)
    else: mat = FrictMat(young=1e6, poisson=.3, density=1000, frictionAngle=.3)
    O.materials.append(mat)
    P = [(0, 0, 0), (.96, 0, 0), (1.9, .1, 0), (.45, .85, 0), (1.4, .9, .1)]
    ig = [Ig2_Sphere_Sphere_ScGeom()]; ip = [Ip2_FrictMat_FrictMat_FrictPhys()]; law = [Law2_ScGeom_FrictPhys_CundallStrack()]; bo = [Bo1_Sphere_Aabb()]; pre = []; post = []; nw = {}
    if s == 'coh': ig = [Ig2_Sphere_Sphere_ScGeom6D()]; ip = [Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionOnNewContacts=True)]; law = [Law2_ScGeom6D_CohFrictPhys_CohesionMoment(useIncrementalForm=True)]
    if s == 'hertz': ip = [Ip2_FrictMat_FrictMat_MindlinPhys(en=.5, es=.5)]; law = [Law2_ScGeom_MindlinPhys_Mindlin(calcEnergy=True, label='vfLaw')]
    if s == 'visc': ip = [Ip2_ViscElMat_ViscElMat_ViscElPhys()]; law = [Law2_ScGeom_ViscElPhys_Basic()]
    if s == 'per': O.periodic = True; O.cell.hSize = Matrix3(2.6, .2, 0, 0, 2.4, 0, 0, 0, 2.2); O.cell.velGrad = Matrix3(-1, .3, 0, 0, -.5, 0, 0, 0, -.5)
    if s in ('energy', 'hertz', 'coh', 'clump'): O.trackEnergy = True
    if s == 'growpast':
        for p in P[:2]: B.append(sp(p, .5))
        for i in range(115): B.append(sp((50 + 3 * i, 0, 0), .5))
        for i in range(2, 117): B.erase(i)
        for p in P[2:]: B.append(sp((p[0], p[1] + 5, p[2]), .5))
    elif s == 'sort':
        for i in range(10):
            for j in range(10):
                for k in range(11): B.append(sp((i + .001 * ((i * 7 + j * 3 + k) % 11), j + .001 * ((j * 5 + k * 3) % 7), k), .505))
    elif s == 'clump':
        B.appendClumped([sp(P[0], .5), sp(P[1], .5)]); B.append(sp(P[3], .5)); B.appendClumped([sp(P[4], .5), sp((1.4, .9, 1.05), .5)]); B.append(sp((.5, 0, .8), .4))
    else:
        for p in P: B.append(sp(p, .5))
    for i, b in enumerate(B):
        if s == 'sort': b.state.vel = ((i * 37 % 41 - 20) * 20., (i * 17 % 31 - 15) * 25., (i * 11 % 23 - 11) * 30.)
        elif not b.isClumpMember: b.state.vel = (.5 * (i % 3 - 1), -20. + 7 * (i % 4), 3. * (i % 2)); b.state.angVel = (i, 1, -i)
    if s == 'facet':
        ig += [Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()]; bo += [Bo1_Facet_Aabb(), Bo1_Wall_Aabb()]
        B.append(utils.facet([(-3, -3, -.48), (4, -3, -.48), (0, 4, -.48)])); B.append(utils.wall((0, -.49, 0), axis=1)); B.append(utils.wall((0, 0, .58), axis=2))
    if s == 'kin': post = [TranslationEngine(ids=[0, 1], translationAxis=(0, 1, 0), velocity=3.), RotationEngine(ids=[2, 3], rotationAxis=(0, 0, 1), angularVelocity=5., rotateAroundZero=True, zeroPoint=(1, 0, 0)), HelixEngine(ids=[4], rotationAxis=(0, 1, 0), angularVelocity=2., linearVelocity=1.)]
    if s == 'stiff': post = [GlobalStiffnessTimeStepper(timestepSafetyCoefficient=.3, timeStepUpdateInterval=1, defaultDt=1e-4)]
    if s in ('energy',): law[0].traceEnergy = True; law[0].label = 'vfLaw'
    O.engines = [ForceResetter(), InsertionSortCollider(bo, verletDist=.02 if s != 'sort' else .05), InteractionLoop(ig, ip, law)] + post + [NewtonIntegrator(damping=.2, gravity=(0, 0, -9.81), exactAsphericalRot=s != 'kin', label='vfNw')]
def steps(s):
    O.step()
    if s == 'growpast': return
    if s == 'grow':
        for i in range(125): O.bodies.append(utils.sphere((50 + 3 * i, 0, 0), .4))
        O.bodies.append(utils.sphere((50.7, 0, 0), .4)); O.bodies.append(utils.sphere((422.7, 0, 0), .4))
    if s == 'erase': O.bodies.erase(1)
    if s == 'plain': O.interactions.erase(0, 3)
    O.step()
    if s == 'erase': O.bodies[3].state.pos += Vector3(3, 0, 0)
    if s == 'sort':
        for i in range(3):
            # a few bodies go farther than the overlap of the chunks of the parallel sort
            if i == 0:
                for k in (7, 333, 512, 1088): O.bodies[k].state.pos = (9. - k % 9 + .45, 4.3 + k % 3, 3.4 + k % 5)
            O.step()
def observe(s):
    if s == 'grow': ids = list(range(5)) + [5, 6, 128, 129, 130, 131]
    elif s == 'sort': ids = range(0, 1100)
    else: ids = [b.id for b in O.bodies]
    r = [O.iter, O.dt, O.time]
    for i in ids:
        b = O.bodies[i]
        if b is None: continue
        st = b.state
        for v in (st.pos, st.vel, st.angVel, O.forces.f(i), O.forces.t(i)): r += [v[0], v[1], v[2]]
        r += [st.ori[j] for j in range(4)]
    c = {}
    for x in O.interactions:
        k = (min(x.id1, x.id2), max(x.id1, x.id2)); p = x.phys
        if k in c: return None, 'two contacts %s' % (k,), None
        f = p.normalForce + p.shearForce
        if x.id1 > x.id2: f = -f
        c[k] = [x.geom.penetrationDepth, x.iterMadeReal, f[0], f[1], f[2]]
    e = dict(O.energy.items()) if O.trackEnergy else {}
    if s == 'hertz': e['nd'] = vfl('vfLaw').normDampDissip
    e['n'] = len(O.interactions); e['real'] = O.interactions.countReal()
    return r, c, e
def vfl(n):
    import __main__, builtins
    for d in (__main__.__dict__, builtins.__dict__):
        if n in d: return d[n]
def near(a, b, sc): return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-11 * sc
def cmp(a, b):
    if a[0] is None: return a[1]
    sc = max([abs(x) for x in b[0]] + [1]); fs = max([abs(v) for k in b[1].values() for v in k] + [1])
    if set(a[1]) != set(b[1]): return 'contacts differ: only here %s, only with one thread %s' % (sorted(set(a[1]) - set(b[1]))[:6], sorted(set(b[1]) - set(a[1]))[:6])
    for k in b[1]:
        if not all(near(x, y, fs) for x, y in zip(a[1][k], b[1][k])): return 'contact %s: %s, with one thread %s' % (k, a[1][k], b[1][k])
    if len(a[0]) != len(b[0]): return 'bodies differ'
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        if not near(x, y, sc): return 'state of bodies, value %d: %r, with one thread %r' % (i, x, y)
    if set(a[2]) != set(b[2]): return 'energies %s, with one thread %s' % (sorted(a[2]), sorted(b[2]))
    es = max([abs(x) for x in b[2].values()] + [1])
    for k in b[2]:
        if not near(a[2][k], b[2][k], es): return 'energy %s: %r, with one thread %r' % (k, a[2][k], b[2][k])
def once(s, T, pre):
    vg.vg_config(T); build(s)
    a = (ctypes.c_int * max(1, len(pre)))(*pre); vg.vg_begin(a, len(pre))
    try: steps(s)
    finally: n = vg.vg_end()
    t = vg.vg_trace()[0:3 * n]
    return [(t[3 * i], t[3 * i + 1]) for i in range(n)]
REF = {}
def ready(s, T, m, bs):
    """Reference result, and the code locations that conflict (found on regular schedules with recording)."""
    if s not in REF:
        vg.vg_mem(0); once(s, 1, []); REF[s] = observe(s)
        assert len(REF[s][1]) > 0
    vg.vg_mem(0); vg.vg_base(bs)
    if m:
        vg.vg_mem(3)
        once(s, T, [])
        for p in ([1] * 3000, [1, 0] * 1500, [0, 1] * 1500, [1, 0, 0] * 1000, [2, 1] * 1500): once(s, T, p)
        vg.vg_mem(2)
def setup():
    global O, utils, vg
    vg = ctypes.CDLL(T_ + '/libvgomp.so'); ctypes.CDLL(T_ + '/libyt.so', ctypes.RTLD_GLOBAL | os.RTLD_LAZY)
    vg.vg_trace.restype = ctypes.POINTER(ctypes.c_int); vg.vg_stat.restype = ctypes.c_long; vg.vg_config(4)
    import yade, yade.wrapper as w
    assert yade.__file__.startswith(V + '/.cache/b/inst/'), yade.__file__
    from yade import utils
    import vp_iter; vp_iter.patch()
    import minieigen; globals().update({k: getattr(minieigen, k) for k in ('Vector3', 'Matrix3', 'Quaternion')})
    for k in dir(w):
        if k[0].isupper() and k not in globals(): globals()[k] = getattr(w, k)
    O = load()
def explore(s, T, m, bs, P, k, K, ctx):
    ready(s, T, m, bs); ref = REF[s]
    def rec(pre, dev, top):
        ctx.case([s, T, m, bs, pre])
        tr = once(s, T, pre)
        ctx.add('points', len(tr))
        o = observe(s); bad = cmp(o, ref)
        if bad: ctx.violation('%s, %d threads%s, schedule %s: %s' % (s, T, ' (switching at memory accesses)' if m else '', [c for n, c in tr][:len(pre)], bad)); return
        ctx.trace(len(tr), s); ctx.state((s, T, m, bs, tuple(c for n, c in tr)))
        if dev == P or (dev and len(tr) > LIM): return
        ch = [c for n, c in tr]
        for i in range(len(pre), len(tr)):
            if top and i % K != k: continue
            for a in range(1, tr[i][0]): rec(ch[:i] + [a], dev + 1, False)
    rec([], 0, True)
    ctx.sample([s, T, m, P])
def run(job, ctx): explore(*job, ctx)
def replay(case, ctx):
    s, T, m, bs, pre = case
    ready(s, T, m, bs); tr = once(s, T, pre); bad = cmp(observe(s), REF[s])
    if bad: ctx.violation('%s, %d threads: %s' % (s, T, bad), case)
NEED_YADE = False
