"""C09: a simulation saved and loaded at any point of a history, in any format, is the same simulation and goes on the same way."""
import itertools, random, __main__
from vf.seq import Seq, prefixes
from vf.yd import *
from vf import dump
from vf.checks import c12
LEVEL = 'model_checking'
DEPTH = {'quick': 3, 'thorough': 4}
LAWD = {'quick': 3, 'thorough': 4}
FMT = [':memory:', 'a.xml', 'a.xml.bz2', 'a.xml.gz', 'a.yade', 'a.yade.gz', 'a.yade.bz2', 'tmp', 'str']
BOUNDS = {t: 'every sequence of %d operations (2 steps, erase, append, insert at a freed id, kick, engine dead/alive, contact deleted, time reset) interleaved with a save+load after every operation in each of 9 formats (and reload twice), for 6 scenes; for each of the contact laws every sequence of 3 moves with a save+load before each' % d for t, d in DEPTH.items()}
RULE = 'a trace is one history run twice, with and without save+load; the complete observable state (bodies, contacts with geometry and physics, materials, cell, engines, time, energies, tags) is compared after each operation and after 3 more steps'
ASSUMPTIONS = ['saved between steps', 'forces of the last step and not yet real contacts are transient by design; loads set with permF are not part of a saved simulation', 'sums over contacts may differ in the last bits (relative tolerance 1e-9)', 'collider internals (bounds) are recomputed', 'counters declared as not saved (liquid bridges) are not compared']
SC = ['basic', 'clump', 'per', 'coh', 'facet', 'energy']
SKIP = {('InsertionSortCollider', k) for k in ('numReinit', 'numAction', 'fastestBodyMaxDist', 'strideActive')} | {('NewtonIntegrator', 'maxVelocitySq'), ('Bound', 'x'), ('Law2_ScGeom_ViscElCapPhys_Basic', 'VLiqBridg'), ('Law2_ScGeom_ViscElCapPhys_Basic', 'NLiqBridg')}
def build(cfg):
    O.reset(); O.dt = 2e-4; cnt.clear(); random.seed(1)
    O.materials.append(FrictMat(young=1e6, density=1000, frictionAngle=.5, label='m0')); O.materials.append(FrictMat(young=2e6, poisson=.3, density=2000, frictionAngle=.2, label='m1'))
    if cfg == 'coh': O.materials.append(CohFrictMat(young=1e6, density=1000, frictionAngle=.5, normalCohesion=1e5, shearCohesion=1e5, momentRotationLaw=True, label='c0'))
    if cfg == 'per':
        O.periodic = True; O.cell.hSize = Matrix3(5, .5, 0, 0, 5, 0, 0, .2, 5); O.cell.velGrad = Matrix3(-.5, .3, 0, 0, -.2, 0, .1, 0, .1)
    B = O.bodies; mat = 'c0' if cfg == 'coh' else 'm0'
    B.append(utils.sphere((0, 0, 0), .5, material=mat, fixed=True)); B.append(utils.sphere((.97, .05, 0), .5, material=mat))
    B.append(utils.sphere((.5, .85, .05), .5, material='c0' if cfg == 'coh' else 'm1')); B.append(utils.sphere((3, 3, 3), .4, material='m1', mask=5))
    B[2].state.vel = (1, -.5, .2); B[1].state.angVel = (3, 2, -1); B[3].state.blockedDOFs = 'xyX'; B[3].state.vel = (0, 0, 1); B[3].state.angVel = (0, 2, 1)
    if cfg == 'clump': B.appendClumped([utils.sphere((0, 0, .95), .5, material='m1'), utils.sphere((.6, .2, 1.6), .45, material='m1')])
    if cfg == 'facet':
        B.append(utils.facet([(-3, -3, -.49), (3, -3, -.49), (0, 4, -.49)], material='m0')); B.append(utils.wall((0, 0, -2), axis=2)); B.append(utils.box((3, 3, 2.2), (.5, .5, .5), fixed=True))
    if cfg == 'energy': O.trackEnergy = True
    O.tags['descr'] = 'x <&> "y"'; O.tags['k'] = 'v=1'
    ig = [Ig2_Sphere_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom()]; ip = [Ip2_FrictMat_FrictMat_FrictPhys()]; law = [Law2_ScGeom_FrictPhys_CundallStrack(label='vfLaw')]
    if cfg == 'coh': ig = [Ig2_Sphere_Sphere_ScGeom6D()]; ip = [Ip2_FrictMat_FrictMat_FrictPhys(), Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True, label='vfIp')]; law = [Law2_ScGeom_FrictPhys_CundallStrack(), Law2_ScGeom6D_CohFrictPhys_CohesionMoment(useIncrementalForm=True)]
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb(), Bo1_Box_Aabb()], verletDist=.03, label='vfCol'), InteractionLoop(ig, ip, law),
        GlobalStiffnessTimeStepper(timestepSafetyCoefficient=.3, timeStepUpdateInterval=3, active=cfg == 'facet'), TranslationEngine(ids=[3], translationAxis=(0, 1, 0), velocity=.5, dead=True, label='vfTr'),
        NewtonIntegrator(damping=.2, gravity=(0, 0, -9.81), label='vfNw'), PyRunner(command='vfcount(2)', iterPeriod=2, label='vfPy', initRun=True), PyRunner(command='vfcount(3)', virtPeriod=5e-4, nDo=4)]
    if cfg == 'coh':
        O.step()
def cmp(a, b):
    # which of two bodies comes first in a contact may depend on the (restarted) sort: compare only what does not depend on it then
    fl = [k for k in a['intrs'] if k in b['intrs'] and a['intrs'][k]['id1'] != b['intrs'][k]['id1']]
    if fl:
        a = dict(a); b = dict(b)
        for d in (a, b):
            d['intrs'] = dict(d['intrs'])
            for k in fl:
                i = d['intrs'][k]; d['intrs'][k] = {'n': sum(x * x for x in i['phys']['normalForce']) ** .5, 's': sum(x * x for x in i['phys']['shearForce']) ** .5, 'm': i['iterMadeReal']}
    return dump.diff(a, b)
class M(Seq):
    def init(self, cfg): return {'c': cfg, 'n': 4, 'er': [], 'tr': False, 'clr': 0, 'path': [], 'fi': 0}
    def enabled(self, m):
        ops = [['st'], ['kick', 1]]
        if 1 not in m['er']: ops.append(['era', 1])
        elif m['c'] != 'clump': ops.append(['ins', 1])
        if not any(o[0] == 'app' for o in m['path']): ops += [['app']]
        if len(m['path']) < 2: ops += [['dead']]
        if not m['clr']: ops += [['rst'], ['del']]
        return ops
    def step(self, m, op):
        m['path'] = m['path'] + [op]
        if op[0] == 'era': m['er'] = m['er'] + [op[1]]
        elif op[0] == 'ins': m['er'] = [x for x in m['er'] if x != op[1]]
        elif op[0] in ('rst', 'del'): m['clr'] = 1
        return ...
    def reset(self, cfg): pass
    def apply(self, op):
        B = O.bodies; k = op[0]
        if k == 'st': O.step(); O.step()
        elif k == 'kick':
            i = op[1] if B[op[1]] is not None else 2
            B[i].state.vel += Vector3(.3, -.2, 1); O.step()
        elif k == 'era': B.erase(op[1]); O.step()
        elif k == 'ins': B.insertAtId(utils.sphere((.98, 0, .02), .5, material='m0'), op[1]); O.step()
        elif k == 'app': B.append(utils.sphere((-.3, .6, .7), .4, material='m1')); O.step()
        elif k == 'dead': O.engines[4].dead = not O.engines[4].dead; O.step()
        elif k == 'rst': O.resetTime()
        elif k == 'del':
            x = [(i.id1, i.id2) for i in O.interactions]
            if x: O.interactions.erase(*sorted(x)[0])
            O.step()
    def twin(self, cfg, path):
        """dumps of the uninterrupted run (after each op, and 3 steps later)"""
        key = (cfg, repr(path))
        if key in TW: return TW[key]
        build(cfg); out = [self.dump()]
        for op in path: self.apply(op); out.append(self.dump())
        for i in range(3): O.step()
        out.append(self.dump())
        if len(TW) > 300: TW.clear()
        TW[key] = out; return out
    def dump(self):
        d = dump.scene(O, SKIP); d['cnt'] = dict(cnt)
        e = dict(d); e['intrs'] = {k: {a: ({x: y for x, y in v.items() if x not in ('penetrationDepth', 'shearInc')} if a == 'geom' else v) for a, v in i.items()} for k, i in d['intrs'].items()}
        if d['cell']: e['cell'] = {k: v for k, v in d['cell'].items() if k != 'prevHSize'}
        return d, e   # complete; without what is recomputed in each step and not saved
    def sl(self, f, ctx=None):
        if f == 'tmp': O.saveTmp('q', quiet=True); O.loadTmp('q', quiet=True)
        elif f == 'str': O.saveTmp('s', quiet=True); O.tmpToFile('f.yade.bz2', 's'); O.load('f.yade.bz2', quiet=True); O.reload(quiet=True)
        else: O.save(f, quiet=True); O.reset() if f[0] != ':' else None; O.load(f, quiet=True)
    def one(self, ctx, cfg, path, f):
        ctx.case([cfg, path, f]); ref = self.twin(cfg, path)
        try:
            build(cfg); self.sl(f); bad = cmp(ref[0][1], self.dump()[1]); where = 'of the initial scene'
            for i, op in enumerate(path):
                if bad: break
                self.apply(op); bad = cmp(ref[i + 1][op[0] == 'rst'], self.dump()[op[0] == 'rst']); where = 'before operation #%d %s' % (i, op)
                if bad: break
                self.sl(f); bad = cmp(ref[i + 1][1], self.dump()[1]); where = 'after operation #%d %s' % (i, op)
                ctx.state((cfg, i, repr(path[:i + 1])))
            if not bad:
                O.step(); O.step(); self.sl(f); O.step(); bad = cmp(ref[-1][0], self.dump()[0]); where = '3 steps later'
        except Exception as e: bad = '%s: %s' % (type(e).__name__, e); where = ''
        if bad: ctx.violation('%s save+load %s: original / loaded differ: %s' % (f, where, bad)); return
        ctx.trace(2 * len(path) + 4, '%s:%d bodies:%d contacts' % (cfg, len(O.bodies), len(O.interactions)))
# every contact law: a moved pair, saved and loaded between the moves
def lawbuild(l):
    L = c12.LAWS[l]; ns = vars(yw); ev = lambda t: eval(t, dict(ns)); O.reset(); O.dt = c12.DT
    ms = [O.materials.append(ev(x)) for x in L['mat']]
    for k, (x, r) in enumerate((((0, 0, 0), c12.R1), ((L.get('d', .917), 0, 0), c12.R2))): b = utils.sphere(x, r, material=O.materials[ms[k]], fixed=True, color=(1, 0, .5)); b.state.blockedDOFs = 'xyzXYZ'; O.bodies.append(b)
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=1.1)], verletDist=0), InteractionLoop([ev(x) for x in L['ig']], [ev(x) for x in L['ip']], [ev(x) for x in L['law']]), NewtonIntegrator()]
    O.step()
def lawop(o):
    v = [Vector3(*[c12.V0 * x for x in t]) for t in c12.OPS[o]]
    for k in (0, 1): s = O.bodies[k].state; s.vel = v[k]; s.angVel = v[k + 2]
    for i in range(3): O.step()
    d = S.dump()[0]; d['f'] = [V(O.forces.f(k, sync=True)) + V(O.forces.t(k)) for k in (0, 1)]
    for i in d['intrs'].values():   # what classes show beyond their attributes
        p = O.interactions[i['id1'], i['id2']].phys
        if p is not None:
            for n in dir(type(p)):
                if n[0] != '_' and n not in ('dispIndex',) and isinstance(getattr(type(p), n), property):
                    try: x = getattr(p, n)
                    except Exception: continue
                    if isinstance(x, (int, float)) and 'cumm' not in n: i['phys']['.' + n] = x
                    elif isinstance(x, Vector3): i['phys']['.' + n] = V(x)
    return d
def lawrun(l, ops, f, ctx):
    ctx.case(['law', l, ops, f])
    try:
        lawbuild(l); ref = [lawop(o) for o in ops]; lawbuild(l); bad = None
        for i, o in enumerate(ops):
            S.sl(f); d = lawop(o); bad = dump.diff(ref[i], d)
            if bad: break
    except Exception as e: bad = '%s: %s' % (type(e).__name__, e); i = 0; o = ''
    if bad: return ctx.violation('contact law %s: %s save+load before move #%d %s: original / loaded differ: %s' % (l, f, i, o, bad))
    ctx.state((l, ops, len(O.interactions))); ctx.trace(len(ops), 'law %s:%d' % (l, len(O.interactions)))
S = M()
def paths(cfg, pre, depth):
    def rec(m, path):
        if len(path) == depth: yield path; return
        for op in S.enabled(m):
            import copy
            m2 = copy.deepcopy(m); S.step(m2, op); yield from rec(m2, path + [op])
    m = S.init(cfg)
    for op in pre: S.step(m, op)
    return rec(m, list(pre))
def jobs(tier): return [['law', l] for l in c12.LAWS] + [[c, p] for c, p in prefixes(S, 2, SC)]
def setup():
    global O, utils, Vector3, Matrix3, cnt, TW, yw
    TW = {}; cnt = {}
    from yade import utils
    from minieigen import Vector3, Matrix3
    import yade.wrapper as w
    yw = w
    for k in dir(w):
        if k[0].isupper(): globals().setdefault(k, getattr(w, k))
    def count(i): cnt[i] = cnt.get(i, 0) + 1
    __main__.vfcount = count
    O = load()
def run(job, ctx):
    cfg, pre = job
    if cfg == 'law':
        for n, ops in enumerate(itertools.product('aryzuv', repeat=LAWD[ctx.tier])):
            for f in FMT[:5:2] if n % 3 == 0 else FMT[:1]: lawrun(pre, ''.join(ops), f, ctx)
        return
    for path in paths(cfg, pre, DEPTH[ctx.tier]):
        for f in FMT: S.one(ctx, cfg, path, f)
def replay(case, ctx): lawrun(*case[1:], ctx) if case[0] == 'law' else S.one(ctx, *case)
