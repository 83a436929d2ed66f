"""C05: contact detection is complete and exact over all bounded histories of motion, insertion and removal (no periodicity).
After each step the set of real contacts is compared with brute-force geometry of the positions the step worked on."""
import itertools, json
import numpy as np
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 3, 'thorough': 4}
BULK = {'quick': 4, 'thorough': 5}
VSEG = {'quick': 3, 'thorough': 4}
BOUNDS = {t: 'jump mode: every sequence of %d operations (jump of any body to any of 9 lattice points, erase, append, insert at a freed id, clear of contacts, reset of one contact), one step after each, for 14 scenes (spheres, masks, self-avoiding masks, wall, facet, box, enlarged detection; 3 sort axes; sort-then-collide); flight mode: every assignment of velocities per segment over %d segments of 4 steps, with erase/append between segments, for 10 settings of the deferred-detection parameters, with clumps and kinematic bodies; bulk mode: every sequence of 4-5 operations on blocks of 40-130 bodies (added, moved, erased, cleared) with all pairs compared; approach mode: a body or clump flying past another in each of 26 directions, at 3 speeds, with each of these settings' % (DEPTH[t], VSEG[t]) for t in DEPTH}
RULE = 'a trace is one history of steps; each step compares all pairs with the geometric oracle; outcomes are distinct final contact sets'
ASSUMPTIONS = ['at most 6 bodies (bulk mode: 400)', 'exact tangency (gap below 1e-10) may go either way', 'masks and clump membership do not change while bounds overlap', 'with deferred detection bodies move by their velocities only']
LAT = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (3.5, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1.2, 1), (2.2, .9, .8), (1, 1, 1.3)]
S = lambda r, m=1: ['s', r, m]
JUMP = {
    'sss': {'b': [S(.6), S(.5), S(.9)], 'p': [0, 2, 3]},
    'sssY': {'b': [S(.6), S(.5), S(.9)], 'p': [0, 2, 3], 'axis': 1},
    'sssZ': {'b': [S(.6), S(.5), S(.9)], 'p': [6, 2, 8], 'axis': 2},
    'stc': {'b': [S(.6), S(.5), S(.9)], 'p': [0, 2, 3], 'stc': True},
    'tie': {'b': [S(.5), S(.5), S(1.)], 'p': [0, 1, 2]},
    'mask': {'b': [S(.6, 1), S(.7, 2), S(.9, 3), S(.6, 4)], 'p': [0, 1, 2, 3]},
    'avoid': {'b': [S(.6, 1), S(.7, 1), S(.9, 3)], 'p': [0, 1, 2], 'avoid': 1},
    'wall': {'b': [['w', 0, 1.6], S(.7), S(.8)], 'p': [None, 0, 3]},
    'wallZ': {'b': [S(.7), ['w', 2, .55], S(.8)], 'p': [0, None, 8], 'axis': 2},
    'facet': {'b': [['f', [(-.5, -.5, .4), (2.7, -.4, .45), (.3, 2.4, .6)]], S(.5), S(.7)], 'p': [None, 0, 3]},
    'box': {'b': [S(.5), ['b', (1.2, .3, .4), (.4, .9, .3)], S(.7)], 'p': [0, None, 3]},
    'boxR': {'b': [S(.5), ['b', (1.2, .3, .4), (.4, .9, .3), 1], S(.7)], 'p': [0, None, 3]},
    'far': {'b': [S(.4), S(.45), S(.6)], 'p': [0, 2, 3], 'fac': 1.5},
    'grow': {'b': [S(.6)], 'p': [0]},
}
RAX = (1 / 3., -2 / 3., 2 / 3.); RAN = .9
_c, _s = math.cos(RAN), math.sin(RAN); _x, _y, _z = RAX
ROT = [[_c + _x * _x * (1 - _c), _x * _y * (1 - _c) - _z * _s, _x * _z * (1 - _c) + _y * _s], [_x * _y * (1 - _c) + _z * _s, _c + _y * _y * (1 - _c), _y * _z * (1 - _c) - _x * _s], [_x * _z * (1 - _c) - _y * _s, _y * _z * (1 - _c) + _x * _s, _c + _z * _z * (1 - _c)]]
def tri_dist(p, v):
    """distance of a point and a triangle"""
    sub = lambda x, y: (x[0] - y[0], x[1] - y[1], x[2] - y[2]); dot = lambda x, y: x[0] * y[0] + x[1] * y[1] + x[2] * y[2]
    cr = lambda x, y: (x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])
    a, b, c = v; n = cr(sub(b, a), sub(c, a)); l = math.sqrt(dot(n, n)); n = (n[0] / l, n[1] / l, n[2] / l)
    E = ((a, b), (b, c), (c, a))
    if all(dot(cr(sub(y, x), sub(p, x)), n) >= 0 for x, y in E): return abs(dot(sub(p, a), n))
    best = None
    for x, y in E:
        e = sub(y, x); q = sub(p, x); t = min(1, max(0, dot(q, e) / dot(e, e))); d = math.sqrt(sum((q[k] - t * e[k]) ** 2 for k in range(3))); best = d if best is None else min(best, d)
    return best
_td = {}
def gap(A, B, fac=1.):
    """signed distance between surfaces; None when the pair of shapes never interacts"""
    if A[0][0] != 's': A, B = B, A
    if A[0][0] != 's': return None
    (a, pa), (b, pb) = A, B; r = a[1]
    if b[0] == 's': return math.dist(pa, pb) - fac * (r + b[1])
    if b[0] == 'w': return abs(pa[b[1]] - b[2]) - r
    if b[0] == 'f':
        k = (tuple(pa), str(b[1]))
        if k not in _td:
            if len(_td) > 20000: _td.clear()
            _td[k] = tri_dist(pa, b[1])
        return _td[k] - r
    if b[0] == 'b':
        q = [pa[i] - b[1][i] for i in range(3)]
        if len(b) > 3: q = [sum(ROT[i][k] * q[i] for i in range(3)) for k in range(3)]
        d = [max(abs(q[i]) - b[2][i], 0) for i in range(3)]; return math.sqrt(sum(x * x for x in d)) - r
def mk(d, pos, **kw):
    mask = d[2] if d[0] == 's' else 1
    if d[0] == 's': return utils.sphere(pos, d[1], mask=mask, **kw)
    if d[0] == 'w': b = utils.wall(d[2], axis=d[1])
    if d[0] == 'f': b = utils.facet(d[1])
    if d[0] == 'b': b = utils.box(d[1], d[2], fixed=True, **({'orientation': Quaternion(Vector3(*V(RAX)), RAN)} if len(d) > 3 else {}))
    return b
def engines(verlet=0, axis=0, stc=False, avoid=0, fac=1., newton=None, extra=None):
    col = InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=fac), Bo1_Facet_Aabb(), Bo1_Wall_Aabb(), Bo1_Box_Aabb()], verletDist=verlet, sortAxis=axis, sortThenCollide=stc)
    col.avoidSelfInteractionMask = avoid
    for k, v in (extra or {}).items(): setattr(col, k, v)
    loop = InteractionLoop([Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=fac), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack(neverErase=fac > 1)])
    return [ForceResetter(), col, loop] + ([newton] if newton else [])
def compare(live, avoid=0, fac=1., clump=None, sticky=False):
    """live: id -> (desc,pos)"""
    I = O.interactions; got = {(min(x.id1, x.id2), max(x.id1, x.id2)): x for x in I}
    ids = sorted(live)
    for i, j in itertools.combinations(ids, 2):
        A, B = live[i], live[j]; g = gap(A, B, fac)
        m1 = A[0][2] if A[0][0] == 's' else 1; m2 = B[0][2] if B[0][0] == 's' else 1
        ok = g is not None and (m1 & m2) and not (m1 == m2 and (m1 & avoid)) and not (clump and i in clump and j in clump)
        if g is not None and abs(g) < 1e-10 and ok: got.pop((i, j), None); continue
        e = bool(ok and g < 0); r = got.pop((i, j), None)
        if e and not r: return 'bodies %d and %d overlap (by %g) but have no contact' % (i, j, -g)
        if r and not e and not (sticky and ok): return 'bodies %d and %d do not interact (gap %s) but have a contact' % (i, j, g)
        if r:
            w = -gap(A, B, 1.); p = r.geom.penetrationDepth
            if abs(p - w) > 1e-9 and (w < .999 * min(k[0][1] for k in (A, B) if k[0][0] == 's') or abs(p) < w): return 'contact of bodies %d and %d: overlap %g, geometry says %g' % (i, j, p, w)
    if got: return 'contacts with erased bodies: %s' % sorted(got)
class Jump(Seq):
    def cfgd(self, c): return JUMP[c.split(':')[1]]
    def init(self, cfg):
        d = self.cfgd(cfg); return {'pos': list(d['p']), 'k': 0, 'n': len(d['b']), 'c': cfg}
    def enabled(self, m):
        ops = []; d = self.cfgd(m['c']); n = len(m['pos'])
        for i in range(n):
            p = m['pos'][i]
            if p is None: ops.append(['sh', i])
            elif p == -1: ops += [['ins', i, q] for q in (1, 4, 7)]
            else:
                ops += [['mv', i, q] for q in range(len(LAT)) if q != p]; ops.append(['era', i])
        if n < 5: ops += [['app', q] for q in ((1, 4, 7) if n < 4 else (1,))]
        ops.append(['clr']); ops.append(['rst'])
        return ops
    def step(self, m, op):
        k = op[0]
        if k in ('mv', 'ins'): m['pos'][op[1]] = op[2]
        elif k == 'era': m['pos'][op[1]] = -1
        elif k == 'app': m['pos'].append(op[1])
        return None
    def reset(self, cfg):
        d = self.d = self.cfgd(cfg); O.reset(); O.dt = 1e-12
        self.desc = [list(b) for b in d['b']]
        O.engines = engines(0, d.get('axis', 0), d.get('stc', False), d.get('avoid', 0), d.get('fac', 1.))
        for b, p in zip(d['b'], d['p']): O.bodies.append(mk(b, LAT[p] if p is not None else None, fixed=True) if b[0] == 's' else mk(b, None))
        O.step()
    def do(self, op):
        k = op[0]; B = O.bodies
        if k == 'mv': B[op[1]].state.pos = LAT[op[2]]
        elif k == 'sh':
            d = self.desc[op[1]]; b = B[op[1]]
            if d[0] == 'w':
                d[2] += .45; p = [0, 0, 0]; p[d[1]] = d[2]; b.state.pos = p
            elif d[0] == 'b': d[1] = (d[1][0] + .5, d[1][1] - .2, d[1][2] + .3); b.state.pos = d[1]
            elif d[0] == 'f': d[1] = [(x + .4, y, z + .35) for x, y, z in d[1]]; b.state.pos = b.state.pos + Vector3(.4, 0, .35)
        elif k == 'era': B.erase(op[1])
        elif k == 'ins': self.desc[op[1]] = S(.6); B.insertAtId(mk(S(.6), LAT[op[2]], fixed=True), op[1])
        elif k == 'app': self.desc.append(S(.65)); B.append(mk(S(.65), LAT[op[1]], fixed=True))
        elif k == 'clr': O.interactions.clear()
        elif k == 'rst':
            for x in list(O.interactions)[:1]: O.interactions.erase(x.id1, x.id2)
        O.step()
        return None
    def check(self, m):
        live = {i: (self.desc[i], LAT[p] if p is not None else None) for i, p in enumerate(m['pos']) if p != -1}
        return compare(live, self.d.get('avoid', 0), self.d.get('fac', 1.), sticky=self.d.get('fac', 1.) > 1)
    def key(self, m): return repr(m)
    def outcome(self, m): return m['c'] + repr(sorted((x.id1, x.id2) for x in O.interactions))
# ---------------------------------------------------------------- flight mode
VELS = [(0, 0, 0), (2.1, 0, 0), (-1.3, .7, 0), (0, -1.9, .4)]
FL = {
    'v.1': dict(verlet=.1), 'v.4': dict(verlet=.4), 'vrel': dict(verlet=-.5), 'ti3': dict(verlet=.3, extra={'targetInterv': 3}),
    'ti20': dict(verlet=.5, extra={'targetInterv': 20, 'minSweepDistFactor': .3}), 'udf': dict(verlet=.3, extra={'updatingDispFactor': 1.}), 'udf.5': dict(verlet=.3, extra={'updatingDispFactor': .5, 'targetInterv': 7}),
    'axis1': dict(verlet=.25, axis=1), 'stc': dict(verlet=.25, stc=True), 'clump': dict(verlet=.3, clump=True), 'nostride': dict(verlet=0),
}
class Flight(Seq):
    def cfgd(self, c): return FL[c.split(':')[1]]
    def init(self, cfg): return {'c': cfg, 'n': 4, 'gone': [], 'seg': 0}
    def enabled(self, m):
        ops = [['v', a, b, c] for a in range(4) for b in range(3) for c in range(2)]
        if not m['gone'] and m['seg'] > 0: ops += [['era', 1], ['app', 2]]
        return ops
    def step(self, m, op):
        m['seg'] += 1
        if op[0] == 'era': m['gone'].append(op[1])
        if op[0] == 'app': m['gone'].append(None); m['n'] += 1
        return None
    def reset(self, cfg):
        d = self.d = self.cfgd(cfg); O.reset(); O.dt = .05
        kw = {k: d[k] for k in ('verlet', 'axis', 'stc', 'extra') if k in d}
        O.materials.append(FrictMat(young=1e-9, density=1e6, frictionAngle=0))
        O.engines = engines(newton=NewtonIntegrator(damping=0, warnNoForceReset=False), **kw)
        self.desc = [S(.5), S(.4), S(.45), ['w', 0, 2.4]]
        B = O.bodies
        B.append(utils.sphere((0, 0, 0), .5)); B.append(utils.sphere((1.25, .1, 0), .4)); B.append(utils.sphere((.6, 1.2, .2), .45, fixed=True)); B.append(utils.wall(2.4, axis=0))
        self.clump = None
        if d.get('clump'):
            B.appendClumped([utils.sphere((-1.3, 0, 0), .5), utils.sphere((-1.3, 1.05, 0), .45)])
            self.desc += [S(.5), S(.45), None]; self.clump = {4, 5}
        self.bad = None
    def do(self, op):
        B = O.bodies
        if op[0] == 'era': B.erase(op[1])
        elif op[0] == 'app': B.append(utils.sphere((.3, .5, .3), .35)); self.desc.append(S(.35))
        else:
            if B[0]: B[0].state.vel = VELS[op[1]]
            if B[1]: B[1].state.vel = VELS[op[2]]
            B[2].state.vel = VELS[op[3]]
            if self.clump: B[6].state.vel = VELS[op[2]]; B[6].state.angVel = (0, 0, 3. * op[3])
        for _ in range(4):
            live = {b.id: (self.desc[b.id], V(b.state.pos)) for b in B if self.desc[b.id]}
            O.step()
            bad = compare(live, clump=self.clump)
            if bad: raise AssertionError('step %d: %s' % (O.iter, bad))
        return None
    def check(self, m): return None
    def key(self, m): return repr((m['c'], sorted((x.id1, x.id2) for x in O.interactions), m['gone']))
    def outcome(self, m): return m['c'] + repr(sorted((x.id1, x.id2) for x in O.interactions))
# ---------------------------------------------------------------- approach mode: one body flies past another, in every direction
DIRS = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
def approach(ctx, cfg, i, sp, kind):
    ctx.case([cfg, [i, sp, kind]]); d = FL[cfg[2:]]; u = DIRS[i]; n = math.sqrt(sum(x * x for x in u)); O.reset(); O.dt = .01
    kw = {k: d[k] for k in ('verlet', 'axis', 'stc', 'extra') if k in d}
    O.materials.append(FrictMat(young=1e-9, density=1e6, frictionAngle=0))
    O.engines = engines(newton=NewtonIntegrator(damping=0, warnNoForceReset=False), **kw)
    p = [-1.7 * x / n for x in u]; v = [sp * x / n for x in u]; B = O.bodies; off = (.02, -.01, .03); desc = {}; cl = None
    def other(): desc[B.append(utils.sphere(off, .5, fixed=True))] = S(.5)
    if kind % 2 == 0: other()
    if kind >= 2:   # clump led by a member
        c, m = B.appendClumped([utils.sphere(p, .4), utils.sphere([x - .9 * y / n for x, y in zip(p, u)], .4)]); cl = set(m); desc.update({k: S(.4) for k in m}); b = c
    else: b = B.append(utils.sphere(p, .4)); desc[b] = S(.4)
    if kind % 2: other()
    B[b].state.vel = v
    for _ in range(int(2.2 / sp / .01) + 2):
        live = {k: (desc[k], V(B[k].state.pos)) for k in desc}; O.step()
        bad = compare(live, clump=cl)
        if bad: ctx.violation('step %d: %s' % (O.iter, bad)); return
    ctx.trace(O.iter, (cfg, len(O.interactions))); ctx.state((cfg, u, sp, kind))
# ---------------------------------------------------------------- bulk mode: many bodies added, moved and removed at once
class Bulk(Seq):
    def init(self, cfg): return {'c': cfg, 'n': 0, 'k': 0}
    def enabled(self, m):
        ops = [['one']]
        if m['k'] < 3: ops += [['blk', 40], ['blk', 130]]
        if m['n']: ops += [['mv'], ['era'], ['clr']]
        return ops
    def step(self, m, op):
        if op[0] == 'blk': m['n'] += op[1]; m['k'] += 1
        elif op[0] == 'one': m['n'] += 1
        elif op[0] == 'clr': m['n'] = 0
        return None
    def reset(self, cfg):
        O.reset(); O.dt = 1e-12; O.engines = engines(0, int(cfg[2]), cfg[2] == '2'); self.k = 0; self.t = 0
        O.materials.append(FrictMat(young=1e6)); O.bodies.append(utils.sphere((0, 0, 0), .52, fixed=True)); O.step()
    def do(self, op):
        B = O.bodies
        if op[0] == 'blk':
            o = (.9 * self.k, 2.3 * self.k, -.6 * self.k); self.k += 1
            for i in range(op[1]): B.append(utils.sphere((o[0] + i % 5 + .01 * (i % 7), o[1] + i // 5 % 5, o[2] + i // 25 + .003 * (i % 11)), .5 + .002 * (i % 9), fixed=True))
        elif op[0] == 'one': self.t += 1; B.append(utils.sphere((.6 * self.t, .5, .3), .45, fixed=True))
        elif op[0] == 'mv':
            for b in B:
                if b.id % 3 == 1: b.state.pos += Vector3(1.3, -.4, .2)
        elif op[0] == 'era':
            for b in list(B):
                if b.id % 4 == 2: B.erase(b.id)
        else: O.interactions.clear(); B.clear(); B.append(utils.sphere((1, 0, 0), .5, fixed=True))
        O.step()
    def check(self, m):
        ids = np.array([b.id for b in O.bodies]); X = np.array([V(b.state.pos) for b in O.bodies]); R = np.array([b.shape.radius for b in O.bodies])
        G = np.sqrt(((X[:, None] - X[None]) ** 2).sum(2)) - R[:, None] - R[None]; i, j = np.nonzero(np.triu(G < 1e-10, 1))
        exp = {(ids[a], ids[b]): -G[a, b] for a, b in zip(i, j) if G[a, b] < -1e-10}; amb = {(ids[a], ids[b]) for a, b in zip(i, j) if G[a, b] >= -1e-10}; got = {}
        for x in O.interactions:
            k = (min(x.id1, x.id2), max(x.id1, x.id2))
            if k in got: return 'two contacts of %d and %d' % k
            got[k] = x.geom.penetrationDepth
        a = sorted(set(exp) - set(got)); b = sorted(set(got) - set(exp) - amb)
        if a: return '%d of %d overlapping pairs have no contact, e.g. %s' % (len(a), len(exp), a[0])
        if b: return '%d contacts of bodies which do not overlap, e.g. %s' % (len(b), b[0])
        for k in exp:
            if abs(got[k] - exp[k]) > 1e-9: return 'contact %s: overlap %g, geometry says %g' % (k, got[k], exp[k])
        self.n = len(got)
    def key(self, m): return repr((m, self.n))
    def outcome(self, m): return 'bulk %d' % self.n
def model(cfg): return Bulk() if cfg[0] == 'B' else Jump() if cfg.startswith('J:') else Flight()
def jobs(tier):
    r = prefixes(Jump(), 1 if tier == 'quick' else 2, ['J:' + k for k in JUMP]) + prefixes(Flight(), 1, ['F:' + k for k in FL]) + prefixes(Bulk(), 2, ['B:%d' % k for k in range(3)])
    # long jobs first
    return sorted(r, key=lambda j: j[0][0]) + [['A:' + k, q] for k in FL for q in range(4)]
def setup():
    global O, utils, Vector3, Quaternion
    from yade import utils
    from minieigen import Vector3, Quaternion
    import yade.wrapper as w
    for k in 'InsertionSortCollider Bo1_Sphere_Aabb Bo1_Facet_Aabb Bo1_Wall_Aabb Bo1_Box_Aabb InteractionLoop Ig2_Sphere_Sphere_ScGeom Ig2_Facet_Sphere_ScGeom Ig2_Wall_Sphere_ScGeom Ig2_Box_Sphere_ScGeom Ip2_FrictMat_FrictMat_FrictPhys Law2_ScGeom_FrictPhys_CundallStrack ForceResetter NewtonIntegrator FrictMat'.split(): globals()[k] = getattr(w, k)
    O = load()
def run(job, ctx):
    if job[0][0] == 'A':
        for i in range(len(DIRS)):
            for sp in (.9, 2.3, 7.): approach(ctx, job[0], i, sp, job[1])
        ctx.sample(job); return
    m = model(job[0]); m.run(job, ctx, (DEPTH if job[0][0] == 'J' else BULK if job[0][0] == 'B' else VSEG)[ctx.tier])
def replay(case, ctx):
    if case[0][0] == 'A': return approach(ctx, case[0], *case[1])
    model(case[0]).replay_path(ctx, case[0], case[1])
