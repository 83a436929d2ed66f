"""C24: functors and engines in use are always the configured ones: dispatch by type, and replacement during the simulation."""
import itertools, math
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 5, 'thorough': 6}
BOUNDS = {t: 'dispatch: every set of up to %d functors of each kind (bounds, geometry, material, law) in every order, every sequence of 2 lookups of the types they apply to (or derive from these), and every lookup after the functors were changed; replacement: every sequence of %d operations (step, move of a sphere, exchange of the loop, of functors in each dispatcher, of the integrator, of the collider, of the engine list, save+load) in 3 scenes' % (2 if t == 'quick' else 3, d) for t, d in DEPTH.items()}
RULE = 'a trace is one sequence of lookups, or one sequence of operations; the functor found must be the one with the smallest distance in the class hierarchy (two different ones at the same distance raise), whatever was looked up before; contacts, forces and motions must be those of the functors and engines assigned last'
ASSUMPTIONS = ['the class hierarchy seen from python is the one used for dispatch', 'functors for one and the same pair of types: the last one counts', 'existing contacts keep geometry and material parameters of the functors which created them']
KIND = {'B': ('BoundFunctor', 'BoundDispatcher', ('Shape',), False), 'G': ('IGeomFunctor', 'IGeomDispatcher', ('Shape', 'Shape'), True), 'P': ('IPhysFunctor', 'IPhysDispatcher', ('Material', 'Material'), True), 'L': ('LawFunctor', 'LawDispatcher', ('IGeom', 'IPhys'), False)}
_c = {}
def subs(b):
    if b not in _c:
        B = getattr(w, b); r = []
        for c in sorted(dir(w)):
            C = getattr(w, c)
            if isinstance(C, type) and issubclass(C, B) and c != b: r.append(c)
        _c[b] = r
    return _c[b]
def mro(c, top):
    m = [x.__name__ for x in getattr(w, c).__mro__]
    return m[:m.index(top) + 1]
def functors(k):
    out = []
    for f in subs(KIND[k][0]):
        try: b = tuple(getattr(w, f)().bases)
        except Exception: continue
        if len(b) == len(KIND[k][2]) and all(hasattr(w, x) for x in b): out.append((f, b))
    return out
def table(k, fs):
    t = {}
    for i, (f, b) in enumerate(fs):
        if KIND[k][3]: t[b[::-1]] = i
        t[b] = i
    return t
def find(k, t, types):
    """index of the functor, None, or 'amb'"""
    hs = [mro(x, top)[:-1] for x, top in zip(types, KIND[k][2])]
    best = {}
    for ix in itertools.product(*[range(len(h)) for h in hs]):
        i = t.get(tuple(h[j] for h, j in zip(hs, ix)))
        if i is not None: best.setdefault(sum(ix), set()).add(i)
    if not best: return None
    s = best[min(best)]
    return s.pop() if len(s) == 1 else 'amb'
def relevant(k, fs):
    r = []
    for top in sorted(set(KIND[k][2])):
        pass
    out = []
    for d, top in enumerate(KIND[k][2]):
        bs = set(b[j] for f, b in fs for j in range(len(b)) if KIND[k][2][j] == top)
        out.append([c for c in subs(top) if bs & set(mro(c, top))])
    return [x for x in itertools.product(*out)]
PARTS = 24
def sets(k, tier):
    F = functors(k); n = 2 if tier == 'quick' else 3
    S = [s for r in range(1, n + 1) for s in itertools.permutations(range(len(F)), r)]
    return [s for s in S if len(s) < 3 or len(set(x for i in s for x in F[i][1])) <= 3]
def jobs(tier): return [['D', k, i] for k in KIND for i in range(PARTS)] + [['R'] + j for j in prefixes(_r, 3, CFGS)]
objs = {}
def obj(c):
    if c not in objs: objs[c] = getattr(w, c)()
    return objs[c]
def lookup(d, types):
    try: r = d.dispFunctor(*[obj(x) for x in types])
    except RuntimeError as e: return 'amb'
    return r
def name(fs, i): return fs[i][0] if isinstance(i, int) else i
def dispatch(k, S, ctx, only=None):
    F = functors(k); D = getattr(w, KIND[k][1])
    for s in S:
        fs = [F[i] for i in s]; t = table(k, fs); rel = relevant(k, fs); exp = {x: find(k, t, x) for x in rel}
        inst = [getattr(w, f)() for f, b in fs]
        def bad(seq, d, x, t, exp, inst, fs):
            r = lookup(d, x); e = exp[x]
            ok = r == 'amb' if e == 'amb' else r is None if e is None else (r is not None and not isinstance(r, str) and r.__class__.__name__ == fs[e][0])
            if not ok: ctx.violation('%s %s: functor for %s is %s, expected %s (after %s)' % (D.__name__, [f for f, b in fs], x, r if r is None or isinstance(r, str) else r.__class__.__name__, name(fs, e), seq)); return True
        # a lookup matters for later ones only if it may leave an entry
        first = [x for x in rel if exp[x] is not None]
        for a in first + [None]:
            for b in rel:
                ctx.case(['D', k, list(s), a, b])
                d = D(inst)
                if a is not None and bad('nothing', d, a, t, exp, inst, fs): return
                if a is not None and exp[a] == 'amb' and bad('the same', d, a, t, exp, inst, fs): return
                if bad(a, d, b, t, exp, inst, fs): return
                ctx.trace(2 if a else 1, name(fs, exp[b]))
        # functors replaced after all lookups
        for keep in range(len(s)):
            ctx.case(['D', k, list(s), 'keep', keep])
            d = D(inst)
            for x in rel: lookup(d, x)
            fs2 = [fs[keep]]; d.functors = [inst[keep]]
            e2 = {x: find(k, table(k, fs2), x) for x in rel}
            for x in rel:
                if bad('changed functors', d, x, None, e2, None, fs2): return
            ctx.trace(len(rel), 'changed')
            ctx.state((k, s, keep))
# ---- replacement during the simulation
R0 = .5; DT = 1e-3; GAP = .02
CFGS = ['law', 'geom', 'newton']
class Run(Seq):
    """two spheres, the second one is moved by its velocity for one step; x = distance - 2 R"""
    def init(self, cfg):
        return dict(cfg=cfg, x=-.01, v=0., real=False, law=0, geom=0, phys=0, nw=0, kphys=None, damp=0, seen=False, n=0, bound=None, un=None, f=None)
    def enabled(self, m):
        c = m['cfg']; o = ['s', 'o', 'i']   # step; move apart and step; approach and step
        if c == 'law': o += ['L', 'l', 'K', 'S']
        elif c == 'geom': o += ['G', 'g', 'P', 'L', 'E']
        else: o += ['N', 'C', 'E', 'S', 'V']
        if m['n'] == 0: o = ['s']
        return o
    def step(self, m, op):
        m['n'] += 1
        if op in 'soi':
            # contacts of this step
            self.contact(m)
            v = {'s': 0, 'o': GAP, 'i': -GAP}[op]
            m['x'] += v
        elif op in 'LlK': m['law'] ^= 1
        elif op in 'Gg': m['geom'] ^= 1
        elif op == 'P': m['phys'] ^= 1
        elif op == 'N': m['nw'] ^= 1
        return Ellipsis
    def contact(self, m):
        x = m['x']; fac = (1., 1.06)[m['geom']]; never = m['law']
        if not m['real'] and x < 2 * R0 * (fac - 1): m['real'] = True; m['kphys'] = m['phys']
        if m['real'] and x > 1e-12 and not never: m['real'] = False
        m['f'] = None
        if m['real']:
            E = 1e6
            m['f'] = -E * R0 * x if x <= 0 else 0.
    def loop(self):
        s = self.s
        return w.InteractionLoop([self.ig()], [self.ip()], [self.lw()])
    def ig(self): return w.Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=(1., 1.06)[self.s['geom']])
    def ip(self): return w.Ip2_FrictMat_FrictMat_FrictPhys(frictAngle=w.MatchMaker(algo='val', val=.2)) if self.s['phys'] else w.Ip2_FrictMat_FrictMat_FrictPhys()
    def lw(self): return w.Law2_ScGeom_FrictPhys_CundallStrack(neverErase=bool(self.s['law']))
    def nwt(self): return w.NewtonIntegrator(damping=(0., .3)[self.s['nw']], gravity=((0, 0, 0), (0, 7., 0))[self.s['nw']])
    def reset(self, cfg):
        O.reset()
        self.cfg = cfg; self.s = dict(law=0, geom=0, phys=0, nw=0)
        O.materials.append(w.FrictMat(young=1e6, poisson=.3, density=1000, frictionAngle=.5))
        for x in (0, 2 * R0 - .01): O.bodies.append(utils.sphere((x, 0, 0), R0, dynamic=False))
        O.bodies.append(utils.sphere((0, 50, 0), R0)); self.free()
        O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb(aabbEnlargeFactor=1.06)], verletDist=.005), self.loop(), self.nwt()]
        O.dt = DT
        self.ff = None; self.fv = None
    def free(self):
        b = O.bodies[2]; b.state.vel = (0, 0, 0); b.state.pos = (0, 50, 0)
    def do(self, op):
        s = self.s
        if op in 'soi':
            self.free()
            O.bodies[1].state.vel = ({'s': 0, 'o': GAP, 'i': -GAP}[op] / DT, 0, 0)
            O.step()
            O.bodies[1].state.vel = (0, 0, 0)
            self.fv = O.bodies[2].state.vel[1]
            self.did = True
            return
        self.did = False
        e = list(O.engines)
        if op == 'L': s['law'] ^= 1; e[2] = self.loop(); O.engines = e
        elif op == 'l': s['law'] ^= 1; O.engines[2].lawDispatcher.functors = [self.lw()]
        elif op == 'K': s['law'] ^= 1; O.engines[2].lawDispatcher.functors[0].neverErase = bool(s['law'])
        elif op == 'G': s['geom'] ^= 1; e[2] = self.loop(); O.engines = e
        elif op == 'g': s['geom'] ^= 1; O.engines[2].geomDispatcher.functors = [self.ig()]
        elif op == 'P': s['phys'] ^= 1; O.engines[2].physDispatcher.functors = [self.ip()]
        elif op == 'N': s['nw'] ^= 1; e[3] = self.nwt(); O.engines = e
        elif op == 'C': e[1] = w.InsertionSortCollider([w.Bo1_Sphere_Aabb(aabbEnlargeFactor=1.06)], verletDist=.005); O.engines = e
        elif op == 'E':
            O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb(aabbEnlargeFactor=1.06)], verletDist=.005), self.loop(), self.nwt()]
        elif op == 'V': O.engines[1].boundDispatcher.functors = [w.Bo1_Sphere_Aabb(aabbEnlargeFactor=1.06)]
        elif op == 'S': O.saveTmp('c24', quiet=True); O.loadTmp('c24', quiet=True)
        return
    def check(self, m):
        if not self.did: return
        r = [i for i in O.interactions if i.isReal and {i.id1, i.id2} == {0, 1}]
        if m['real'] != bool(r): return 'contact is %s, expected %s (distance minus radii %.3g)' % (bool(r), m['real'], m['x'])
        if r:
            f = r[0].phys.normalForce.norm()
            if abs(f - m['f']) > 1e-6 * max(1, abs(m['f'])): return 'force %r, expected %r' % (f, m['f'])
            t = r[0].phys.tangensOfFrictionAngle; e = math.tan((.5, .2)[m['kphys']])
            if abs(t - e) > 1e-9: return 'friction coefficient %r, expected %r' % (t, e)
        e = 7. * DT if m['nw'] else 0.
        # gravity acts along the motion, from rest: damping does not reduce it in the first step
        if abs(self.fv - e) > 1e-9 and abs(self.fv - e * .7) > 1e-9 and abs(self.fv - e * 1.3) > 1e-9: return 'free sphere got velocity %r, expected %r' % (self.fv, e)
        return
    def key(self, m): return repr((m['cfg'], round(m['x'], 6), m['real'], m['law'], m['geom'], m['phys'], m['nw'], m['kphys']))
    def outcome(self, m): return (m['cfg'], m['real'])
_r = Run()
def setup():
    global O, w, utils
    import yade.wrapper as w
    from yade import utils
    O = load()
def run(job, ctx):
    if job[0] == 'D': dispatch(job[1], sets(job[1], ctx.tier)[job[2]::PARTS], ctx)
    else: _r.run(job[1:], ctx, DEPTH[ctx.tier])
def replay(case, ctx):
    if case[0] == 'D': dispatch(case[1], [tuple(case[2])], ctx)
    else: _r.replay_path(ctx, case[0], case[1])
