"""C18: a run distributed over several processes (yade.mpy) gives what the serial run gives, for every assignment of bodies to ranks, send mode and order of messages."""
import ctypes, itertools, os, subprocess, sys
from vf.yd import *
LEVEL = 'model_checking'
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); L_ = HERE + '/.cache/m'
ENV = {'LD_PRELOAD': L_ + '/libvmpi.so'}
HANG = 200
# scene: number of bodies
SCN = {'pile': 5, 'fly': 4, 'wall': 5, 'slide': 4, 'sizes': 4, 'facet': 4}
MODES = [(True, True, True), (True, False, True), (False, False, True), (True, True, False)]   # OPTIMIZE_COM, USE_CPP_MPI, ERASE_REMOTE
PROG = [[['T', 12]], [['F', 12]], [['T', 1], ['T', 6]], [['T', 4], ['M'], ['T', 4]], [['T', 4], ['K'], ['T', 4]], [['F', 3], ['K'], ['F', 5]], [['T', 3], ['E'], ['T', 5]], [['T', 3], ['F', 5]], [['F', 3], ['T', 5]], [['E'], ['T', 4]], [['T', 2], ['T', 6]], [['T', 3], ['T', 6]], [['T', 2], ['F', 6]], [['F', 9], ['F', 9], ['F', 9]], [['T', 5]], [['T', 3]]]
BOUNDS = {'quick': '6 scenes of 4-5 bodies; all assignments of bodies to 2 ranks x 14 command histories (runs with and without redistribution, merging, kicked or erased bodies), all assignments to 3 ranks (master included) x 5 histories, buffered or synchronous sends; all 4 communication modes on 2 ranks; all orders of ranks with at most 1 deviation from the default one, for 2 assignments to 3 ranks per scene',
          'thorough': 'the same with 4 ranks, all histories on 3 ranks, and all pairs of deviations'}
RULE = 'a trace is one distributed run of the real code, every rank a process and every MPI call decided by the controller; state of all bodies, forces on the master, contacts and iterations are compared with the serial run'
ASSUMPTIONS = ['MPI is replaced by a controlled implementation with its documented semantics (non-overtaking messages, blocking sends buffered or synchronous)']
BUDGET = {'quick': 800, 'thorough': 6 * 3600}
def prepare(env, tier):
    os.makedirs(L_, exist_ok=True); src = HERE + '/vf/rt/vmpi.cpp'; so = L_ + '/libvmpi.so'
    if os.path.exists(so) and os.path.getmtime(so) > os.path.getmtime(src): return
    tmp = so + '.%d' % os.getpid()
    if subprocess.call(['g++', '-O1', '-shared', '-fPIC', '-DOMPI_SKIP_MPICXX', '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-o', tmp, src, '-lmpi']): raise SystemExit(3)
    os.rename(tmp, so)
def setup():
    global O, mpy, lib, mpi
    from vf import mpi
    mpi.install(); lib = ctypes.CDLL(L_ + '/libvmpi.so')
    import yade, yade.wrapper, yade.utils, yade.mpy
    from yade import wrapper
    globals().update({k: v for k, v in wrapper.__dict__.items() if not k.startswith('_')})
    globals()['utils'] = yade.utils
    from minieigen import Vector3, Quaternion
    globals().update(Vector3=Vector3, Quaternion=Quaternion)
    mpy = yade.mpy; O = mpy.O; mpy.YADE_TIMING = False
def build(s, A):
    O.reset(); O.dt = 1e-4; B = O.bodies; sp = utils.sphere
    O.materials.append(FrictMat(young=1e6, poisson=.3, density=1000, frictionAngle=.5 if s == 'slide' else 0.))
    vd = .02; bo = [Bo1_Sphere_Aabb()]; ig = [Ig2_Sphere_Sphere_ScGeom()]; damp = .1
    if s == 'pile':
        for i, p in enumerate([(0, 0, 0), (.96, 0, 0), (1.9, .1, 0), (.45, .85, 0), (1.4, .9, .1)]): B.append(sp(p, .5)); B[i].state.vel = (.5 * (i % 3 - 1), -2 + .7 * i, .3 * i)
    if s == 'fly':   # fast bodies meeting after some steps
        O.dt = 2e-4
        for i, (p, v) in enumerate([((0, 0, 0), (80, 0, 0)), ((1.045, 0, 0), (0, 5, 0)), ((2.2, .2, 0), (-90, 0, 0)), ((1.0, 1.1, .1), (0, -60, 0))]): B.append(sp(p, .5)); B[i].state.vel = v; B[i].state.angVel = (i, 2, -1)
    if s == 'wall':
        ig += [Ig2_Wall_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom()]; bo += [Bo1_Wall_Aabb(), Bo1_Box_Aabb()]
        B.append(utils.box((1, -.25, 0), (3, .25, 3), fixed=True)); B.append(utils.wall((-.49, 0, 0), axis=0))
        for i, p in enumerate([(0, .49, 0), (.95, .5, .1), (.5, 1.3, 0)]): B.append(sp(p, .5)); B[-1].state.vel = (-i, -20., .5)
    if s == 'slide':   # friction: small motion, no redistribution
        vd = .2; damp = .2
        for i, p in enumerate([(0, 0, 0), (.96, 0, 0), (.45, .85, 0), (1.4, .9, .1)]): B.append(sp(p, .5)); B[i].state.vel = (.1 * (i - 1), -.2 * i, .3); B[i].state.angVel = (i, -1, 3)
    if s == 'sizes':
        for i, (p, r) in enumerate([((0, 0, 0), 1.), ((1.1, .2, 0), .15), ((0, 1.18, .1), .2), ((1.28, .45, 0), .12)]): B.append(sp(p, r)); B[i].state.vel = (-10 * i, -40 * i, 10); B[i].state.angVel = (0, i, 0)
    if s == 'facet':
        ig += [Ig2_Facet_Sphere_ScGeom()]; bo += [Bo1_Facet_Aabb()]
        B.append(utils.facet([(-1, -1, 0), (2, -1, 0), (-1, 2, 0)])); B.append(utils.facet([(2, 2, 0), (2, -1, 0), (-1, 2, 0)]))
        for i, p in enumerate([(0, 0, .49), (.97, .1, .52)]): B.append(sp(p, .5)); B[-1].state.vel = (10 * i, 0., -10.)
    for i, b in enumerate(B): b.subdomain = A[i]
    O.engines = [ForceResetter(), InsertionSortCollider(bo, verletDist=vd, label='collider'), InteractionLoop(ig, [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]), NewtonIntegrator(damping=damp, gravity=(0, 0, -9.81))]
def states():
    r = {}
    for b in O.bodies:
        if b is None or b.isSubdomain: continue
        s = b.state; r[b.id] = [float(x) for v in (s.pos, s.vel, s.angVel) for x in v] + [float(s.ori[j]) for j in range(4)]
    return r
def contacts():
    r = {}
    for i in O.interactions:
        if not i.isReal: continue
        f = i.phys.normalForce + i.phys.shearForce
        r[min(i.id1, i.id2), max(i.id1, i.id2)] = [float(x) * (1 if i.id1 < i.id2 else -1) for x in f]
    return r
def forces(): return {b.id: [float(x) for x in O.forces.f(b.id)] + [float(x) for x in O.forces.t(b.id)] for b in O.bodies if b and not b.isSubdomain}
def kick():
    b = [b for b in O.bodies if b and not b.isSubdomain and isinstance(b.shape, Sphere)][0]; b.state.pos += Vector3(.01, .02, 0); b.state.vel = (3, -2, 5); b.state.angVel = (1, 2, 3)
def erase(n): O.bodies.erase(n - 1)
def rankmain(s, A, prog, mode):
    def f(r):
        mpy.rank = r; mpy.numThreads = mpi.SIZE; mpy.OPTIMIZE_COM, mpy.USE_CPP_MPI, mpy.ERASE_REMOTE = mode
        if r == 0: build(s, A)
        else: O.reset()
        out = []
        for op in prog:
            if op[0] == 'T': mpy.mpirun(op[1], True)
            elif op[0] == 'F': mpy.mpirun(op[1], False)
            else:
                mpy.mergeScene()
                if r == 0 and op[0] == 'K': kick()
                if r == 0 and op[0] == 'E': erase(len(A))
            if op[0] in 'TF':
                d = {'iter': O.iter, 'time': O.time, 'con': contacts(), 'own': {k: v for k, v in states().items() if O.bodies[k].subdomain == r}}
                if r == 0: d['f'] = {k: v for k, v in forces().items() if O.bodies[k].subdomain == 0}
                out.append(d)
        mpy.mergeScene()
        if r == 0: out.append(states())
        return out
    return f
_pool = {}
def pooled(r, a):
    O.reset(); O.splitted = O.splittedOnce = False
    for k in ('subD', 'freqs'):
        if k in O.__dict__: delattr(O, k)
    return rankmain(*a)(r)
def serial(s, n, prog, iters):
    build(s, [0] * n); out = []; k = 0
    for op in prog:
        if op[0] in 'TF':
            while O.iter < iters[k]: O.step()
            k += 1; out.append([O.time, contacts(), states(), forces()])
        elif op[0] == 'K': kick()
        elif op[0] == 'E': erase(n)
    out.append(states()); return out
_ser = {}
def ref(s, n, prog, iters):
    k = (s, str(prog), tuple(iters))
    if k not in _ser: _ser[k] = serial(s, n, prog, iters)
    return _ser[k]
def dif(a, b, what):
    if set(a) != set(b): return '%s: %s, serial run: %s' % (what, sorted(a), sorted(b))
    for k in b:
        m = max([abs(x) for x in b[k]] + [1.])
        for x, y in zip(a[k], b[k]):
            if not abs(x - y) <= 1e-9 * m: return '%s of %s: %s, serial run: %s' % (what, k, ['%.10g' % v for v in a[k]], ['%.10g' % v for v in b[k]])
def compare(s, A, prog, R, res):
    n = len(A); P = [op for op in prog if op[0] in 'TF']; it = [d['iter'] for d in res[0][:-1]]
    for r in range(1, R):
        if [d['iter'] for d in res[r]] != it: return 'ranks 0 and %d are at iterations %s and %s' % (r, it, [d['iter'] for d in res[r]])
    last = 0
    for op, i in zip(P, it):
        if op[0] == 'T' and i != last + op[1] or not last < i <= last + op[1]: return 'mpirun(%d) went from iteration %d to %d' % (op[1], last, i)
        last = i
    S = ref(s, n, prog, it)
    for k in range(len(P)):
        t, con, st, fo = S[k]; seen = {}
        for r in range(R):
            d = res[r][k]
            if abs(d['time'] - t) > 1e-12: return 'rank %d: time %r, serial run: %r' % (r, d['time'], t)
            for c, f in d['con'].items():
                if c not in con: return 'after command %d, rank %d has contact %s, which the serial run does not have' % (k, r, c)
                e = dif({c: f}, {c: con[c]}, 'after command %d, rank %d: contact force' % (k, r))
                if e: return e
                seen.setdefault(c, []).append(r)
            for b, v in d['own'].items():
                if A[b] != r: return 'body %d is in rank %d' % (b, r)
                e = dif({b: v}, {b: st[b]}, 'after command %d, rank %d: state of body' % (k, r))
                if e: return e
        for c in con:
            if c not in seen: return 'after command %d, contact %s of the serial run is in no rank' % (k, c)
        got = set(b for r in range(R) for b in res[r][k]['own'])
        if got != set(st): return 'bodies %s, serial run: %s' % (sorted(got), sorted(st))
        e = dif(res[0][k]['f'], {b: fo[b] for b in fo if A[b] == 0}, 'after command %d, force on body' % k)
        if e: return e
    return dif(res[0][-1], S[-1], 'merged at the end, state of body')
def assignments(s, n, R):
    """All assignments in which every worker has a body (with friction: every rank, as a rank without moving bodies triggers redistribution)."""
    return [list(a) for a in itertools.product(range(R), repeat=n) if set(range(0 if s == 'slide' else 1, R)) <= set(a)]
def ok(s, prog):
    return s != 'slide' or len(prog) == 1 or all(o[0] == 'T' for o in prog)   # redistribution resets the history of contacts (known finding)
def jobs(tier):
    q = tier == 'quick'; J = []
    for s, n in SCN.items():
        for R in (2, 3) if q or n > 4 else (2, 3, 4):
            K = max(1, len(assignments(s, n, R)) // (16 if R > 2 else 32))
            J += [[s, R, 0, 0, k, K, 0] for k in range(K)]
            for m in (1, 2, 3):
                if R == 2 or not q: J += [[s, R, 14 if q else 0, m, k, K, 0] for k in range(K)]
            for p in range(1, 14):
                if ok(s, PROG[p]) and (R == 2 or not q or p in (6, 10, 12, 13)): J += [[s, R, p, 0, k, K, 0] for k in range(K)]
        A = ([0, 1, 2, 1, 2][:n], [1, 2, 0, 2, 1][:n], [1, 2, 2, 0, 1][:n], [2, 0, 1, 0, 1][:n])
        for a in A[:2] if q else A:
            J.append([s, 3, 15 if q else 3 if s != 'slide' else 0, 0, a, 1 if q else 2, 1])
    return J + [['slide', 2, 3, 0, [0, 1, 0, 1], 0, 2], ['pile', 0, 0, 0, 0, 0, 3]]
def one(ctx, s, R, p, m, A, eager, prefix):
    prog = PROG[p]; ctx.case([s, R, p, m, A, eager, prefix])
    if R in _pool and _pool[R].n >= 400: _pool.pop(R).close()
    if R not in _pool: _pool[R] = mpi.Pool(R, pooled, lib)
    try:
        res, tr, nm = _pool[R].run([s, A, prog, MODES[m]], eager, prefix); e = compare(s, A, prog, R, res)
    except (mpi.Deadlock, mpi.Failed): e = 'x'
    if e:   # decided by new processes
        _pool.pop(R).close()
        try: res, tr, nm = mpi.run(R, rankmain(s, A, prog, MODES[m]), eager=eager, prefix=prefix, timeout=60, lib=lib)
        except mpi.Deadlock as e: ctx.violation('deadlock: %s' % e); return None
        except mpi.Failed as e: ctx.violation(str(e)[-600:]); return None
        e = compare(s, A, prog, R, res)
        if e: ctx.violation(e); return None
        ctx.add('repeated')
    ctx.add('messages', nm); ctx.trace(nm, (s, nm)); ctx.state((s, p, str(res[0][-1])))
    return tr
def history(ctx, s, R, p, A):
    """Known finding: the tangential force of contacts starts again from zero when the scene is merged and split."""
    ctx.case([s, R, p, 0, A, True, 'history']); prog = PROG[p]
    res, tr, nm = mpi.run(R, rankmain(s, A, prog, MODES[0]), lib=lib); e = compare(s, A, prog, R, res)
    if e: ctx.known_finding('contact history (shear force) is reset when a distributed scene is merged and split: 4 spheres with friction on 2 ranks, mpirun(4), mergeScene, mpirun(4)')
    ctx.trace(nm, 'history')
def pack(ctx):
    """States (and bounds) taken from any list of bodies and put back give the same bodies."""
    for n in range(1, 4):
        for ids in itertools.permutations(range(4), n):
            for wb in (False, True):
                ctx.case(['pack', list(ids), wb]); build('pile', [0] * 5); O.step()
                for b in O.bodies: b.state.ori = Quaternion(Vector3(1, b.id, -2).normalized(), .3 + b.id); b.state.angVel = (b.id, 7, -2)
                S = Subdomain(); bd = lambda: {b.id: [float(x) for v in (b.bound.min, b.bound.max) for x in v] for b in O.bodies}
                d = (S.getStateBoundsValuesFromIds if wb else S.getStateValuesFromIds)(list(ids)); st = states(); bb = bd(); k = 19 if wb else 13
                want = []
                for i in ids: want += st[i] + (bb[i] if wb else [])
                if list(d) != want: ctx.violation('values of bodies %s: %s, expected %s' % (ids, list(d), want)); return
                build('pile', [0] * 5); O.step()
                for b in O.bodies: b.state.pos = (9, 9, b.id); b.state.vel = (1, b.id, 2)
                s1 = states(); b1 = bd(); (S.setStateBoundsValuesFromIds if wb else S.setStateValuesFromIds)(list(ids), d); s2 = states(); b2 = bd()
                for i in s2:
                    e = dif({i: s2[i]}, {i: st[i] if i in ids else s1[i]}, 'state of') or dif({i: b2[i]}, {i: bb[i] if i in ids and wb else b1[i]}, 'bounds of')
                    if e: ctx.violation('ids %s: %s' % (ids, e.replace('serial run', 'expected'))); return
                ctx.trace(2, ('pack', n, wb))
def run(job, ctx):
    s, R, p, m, k, K, kind = job
    if kind == 2: return history(ctx, s, R, p, k)
    if kind == 3: return pack(ctx)
    if not kind:
        for A in assignments(s, SCN[s], R)[k::K]:
            for eager in (True, False): one(ctx, s, R, p, m, A, eager, [])
        ctx.sample(job); return
    A, P = k, K
    for eager in (True, False):
        def rec(prefix, left):
            tr = one(ctx, s, R, p, m, A, eager, prefix)
            if tr is None or not left: return
            for i in range(len(prefix), len(tr)):
                for alt in range(1, tr[i][0]):
                    rec([c for _, c in tr[:i]] + [alt], left - 1)
        rec([], P)
def replay(c, ctx):
    if c[0] == 'pack': pack(ctx)
    elif c[-1] == 'history': history(ctx, c[0], c[1], c[2], c[4])
    else: one(ctx, *c)
