"""C06: contact detection in periodic cells (orthogonal, sheared, deforming, flipped): contacts exist exactly between the
overlapping nearest images, with the right image offset and overlap, over bounded histories."""
import itertools
from vf.seq import Seq, prefixes
from vf.yd import *
from vf.checks.c05 import tri_dist
LEVEL = 'model_checking'
DEPTH = {'quick': 3, 'thorough': 4}
SEG = {'quick': 3, 'thorough': 4}
BOUNDS = {t: 'jump mode: every sequence of %d operations (move of any body to any of 12 cell points, bodies being in different images of the cell, erase, append, change of cell shape) with a step after each, in 6 cells; facet mode: the same number of moves of spheres (with lower and higher ids) to 7 points around a facet across the boundary, moves of the facet, erase, append and clear, in 6 cells; floor mode: the same number of moves of spheres along the height, over several images, and of a box, shorter or (allowBiggerThanPeriod) longer than the cell, in 5 settings; corner mode: a body at 64 places around the corner of the cell, then another appended at 64 places, in 6 cells; flight mode: every choice of velocities and of cell velocity gradient over %d segments of 4 steps, plus cell flips, for 5 settings of deferred detection and sweep' % (DEPTH[t], SEG[t]) for t in DEPTH}
RULE = 'a trace is one history; after each step every pair is compared with the brute-force nearest image'
ASSUMPTIONS = ['spheres smaller than half of the cell', 'moves of 0.15 of the cell at most per step (a jump from one image of a neighbour to another is not detected by design: existing contacts keep their image)', 'gap below 1e-10 may go either way']
# cell points (reduced coordinates), some outside of the base cell
PT = [(.1, .1, .1), (.3, .1, .1), (.95, .1, .1), (1.08, .1, .1), (-.1, .12, .1), (.1, .93, .1), (.2, -.12, .9), (.5, .5, .5), (.62, .45, .7), (.1, .1, 1.05), (.9, .95, .97), (.4, .25, -.05)]
CELLS = {'cube': ((5, 0, 0), (0, 5, 0), (0, 0, 5)), 'brick': ((4.2, 0, 0), (0, 5.5, 0), (0, 0, 7)), 'shxy': ((5, 1.3, 0), (0, 5, 0), (0, 0, 5)), 'shall': ((5, -.9, .6), (.3, 5.2, -.8), (-.4, .5, 5.1)), 'rot': ((4.9, -1.1, 0), (1.1, 4.9, 0), (0, 0, 5)), 'shn': ((5, 0, -1.4), (0, 5, 1.2), (0, 0, 5))}
OFF = [(0, 0, 0), (-1, 2, 0), (0, 0, 0), (0, -1, 1), (3, 0, -2), (0, 0, 0)]   # initial images
RAD = [.55, .6, .8, .65, .5, .6]
def mat(rows): return Matrix3(*[x for r in rows for x in r])
def nearest(H, a, b):
    """image offset n (integers) minimising |b + H n - a|, and the distance"""
    d = b - a; s = H.inverse() * d; best = None
    base = [-round(s[i]) for i in range(3)]
    for o in itertools.product((-1, 0, 1), repeat=3):
        n = [base[i] + o[i] for i in range(3)]; L = (d + H * Vector3(*n)).norm()
        if best is None or L < best[0] - 1e-12: best = (L, n)
    return best
def compare(live):
    H = O.cell.hSize; got = {}
    for x in O.interactions: got[(min(x.id1, x.id2), max(x.id1, x.id2))] = x
    for i, j in itertools.combinations(sorted(live), 2):
        (ri, pi), (rj, pj) = live[i], live[j]; L, n = nearest(H, pi, pj); g = L - ri - rj
        x = got.pop((i, j), None)
        if abs(g) < 1e-10: continue
        if g < 0 and x is None: return 'bodies %d and %d overlap by %g (image %s) but have no contact' % (i, j, -g, n)
        if g > 0 and x is not None: return 'bodies %d and %d are apart by %g but have a contact' % (i, j, g)
        if x is not None:
            cd = [int(v) for v in x.cellDist]
            if x.id1 != i: cd = [-v for v in cd]
            if cd != n: return 'contact %d+%d has image offset %s, nearest image is %s' % (i, j, cd, n)
            if abs(x.geom.penetrationDepth + g) > 1e-9: return 'contact %d+%d overlap %g, geometry says %g' % (i, j, x.geom.penetrationDepth, -g)
    if got: return 'contacts with erased bodies: %s' % sorted(got)
def engines(verlet=0, newton=None, **kw):
    col = InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=verlet, **kw)
    loop = InteractionLoop([Ig2_Sphere_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()])
    return [ForceResetter(), col, loop] + ([newton] if newton else [])
class Jump(Seq):
    def init(self, cfg): return {'c': cfg, 'p': [0, 2, 7], 'app': 0, 'cell': 0}
    def enabled(self, m):
        ops = []
        for i, p in enumerate(m['p']):
            if p == -1: continue
            ops += [['mv', i, q] for q in range(len(PT)) if q != p]
            ops.append(['era', i])
        if len(m['p']) < 5: ops += [['app', 1], ['app', 10]]
        if m['cell'] < 1: ops.append(['cell'])
        ops.append(['clr'])
        return ops
    def step(self, m, op):
        if op[0] == 'mv': m['p'][op[1]] = op[2]
        elif op[0] == 'era': m['p'][op[1]] = -1
        elif op[0] == 'app': m['p'].append(op[1])
        elif op[0] == 'cell': m['cell'] += 1
        return None
    def reset(self, cfg):
        O.reset(); O.periodic = True; O.cell.hSize = mat(CELLS[cfg.split(':')[1]]); O.dt = 1e-12
        O.engines = engines()
        self.H = O.cell.hSize; self.last = {}
        for i, p in enumerate([0, 2, 7]): O.bodies.append(utils.sphere(self.at(i, p), RAD[i], fixed=True))
        O.step()
    def at(self, i, p):
        # the image nearest to where the body was
        s = Vector3(*PT[p]); d = self.last[i] - s if i in self.last else Vector3(*OFF[i])
        self.last[i] = s + Vector3(*[round(v) for v in d]); return self.H * self.last[i]
    def do(self, op):
        B = O.bodies
        if op[0] == 'mv':
            a = self.last[op[1]]; z = self.at(op[1], op[2])
            d = self.last[op[1]] - a; n = int(max(abs(v) for v in d) / .15) + 1   # long moves in several steps
            for k in range(1, n): B[op[1]].state.pos = self.H * (a + d * (k / n)); O.step()
            B[op[1]].state.pos = z
        elif op[0] == 'era': B.erase(op[1])
        elif op[0] == 'app': i = len(B); B.append(utils.sphere(self.at(i, op[1]), RAD[i], fixed=True))
        elif op[0] == 'clr': O.interactions.clear()
        elif op[0] == 'cell':
            # a homogeneous strain of cell and contents
            F = Matrix3(1.02, .05, 0, -.03, .97, .02, 0, .04, 1.01); self.H = F * self.H; O.cell.hSize = self.H
            for b in B: b.state.pos = F * b.state.pos
        self.live = {b.id: (b.shape.radius, b.state.pos) for b in B}
        O.step()
    def check(self, m): return compare(self.live)
    def key(self, m): return repr(m)
    def outcome(self, m): return m['c'] + repr(sorted((x.id1, x.id2, tuple(x.cellDist)) for x in O.interactions))
VG = [None, ((-.3, 0, 0), (0, -.3, 0), (0, 0, -.3)), ((0, .8, 0), (0, 0, 0), (0, 0, 0)), ((0, 0, 0), (0, .3, 0), (.7, 0, -.2))]
VEL = [(0, 0, 0), (2.3, .4, 0), (-1.7, -1.9, .6), (.5, 0, -2.6)]
FL = {'v0': ('cube', 0, {}), 'v.3': ('brick', .3, {}), 'sh.3': ('shall', .25, {}), 'ti': ('shxy', .4, {'targetInterv': 5}), 'stc': ('shn', .2, {'sortThenCollide': True})}
class Flight(Seq):
    def init(self, cfg): return {'c': cfg, 'ops': [], 'fl': 0}
    def enabled(self, m):
        ops = [['v', a, b, 0] for a in range(4) for b in range(3)] + [['v', a, b, g] for a, b in ((0, 0), (1, 2)) for g in (1, 2, 3)]
        if m['fl'] < 1 and len(m['ops']) == 1: ops += [['flip', 0], ['flip', 1]]
        return ops
    def step(self, m, op):
        m['ops'].append(op); m['fl'] += op[0] == 'flip'; return None
    def reset(self, cfg):
        c, vd, kw = FL[cfg.split(':')[1]]
        O.reset(); O.periodic = True; O.cell.hSize = mat(CELLS[c]); O.dt = .04
        O.materials.append(FrictMat(young=1e-9, density=1e6, frictionAngle=0))
        O.engines = engines(vd, NewtonIntegrator(damping=0, warnNoForceReset=False), **kw)
        H = O.cell.hSize
        for i, p in enumerate([(.05, .1, .1), (.94, .14, .1), (.08, .96, .16), (.3, .2, .95)]): O.bodies.append(utils.sphere(H * Vector3(*p), .55 * RAD[i], fixed=i == 2))
    def do(self, op):
        B = O.bodies
        if op[0] == 'flip':
            n0 = sorted((x.id1, x.id2) for x in O.interactions)
            utils.flipCell(Matrix3(0, -1, 0, 0, 0, 0, 0, 0, 0) if op[1] else Matrix3.Zero)
        else:
            B[0].state.vel = VEL[op[1]]; B[1].state.vel = VEL[op[2]]
            if op[3] and not VG[op[3]] is None: O.cell.velGrad = mat(VG[op[3]])
            else: O.cell.velGrad = Matrix3.Zero
        for _ in range(4):
            live = {b.id: (b.shape.radius, b.state.pos) for b in B}
            O.step()
            bad = compare(live)
            if bad: raise AssertionError('step %d: %s' % (O.iter, bad))
    def check(self, m): return None
    def key(self, m): return m['c'] + repr(sorted((x.id1, x.id2, tuple(x.cellDist)) for x in O.interactions))
    def outcome(self, m): return self.key(m)
class Face(Seq):
    """Spheres with lower and higher ids than a facet lying across the boundary."""
    P = [(.02, .99, .57), (-.05, .06, .44), (.85, 1.02, .53), (.97, .8, .66), (1.0, 1.0, .75), (.5, .5, .5), (1.12, .93, .39)]
    FP = [(.98, .97, .5), (.05, -.04, 1.52)]
    FV = [(-.7, -.5, .1), (.8, -.4, -.2), (0, .75, .15)]
    def init(self, cfg): return {'c': cfg, 'p': [0, 0, 5], 'app': 0}
    def enabled(self, m):
        ops = [['mv', i, q] for i in (0, 2, 3)[:len(m['p']) - 1] if m['p'][i] != -1 for q in range(len(self.P)) if q != m['p'][i]] + [['mv', 1, 1 - m['p'][1]], ['clr']]
        if m['p'][0] != -1: ops.append(['era', 0])
        if len(m['p']) < 4: ops.append(['app', 2])
        return ops
    def step(self, m, op):
        if op[0] == 'mv': m['p'][op[1]] = op[2]
        elif op[0] == 'era': m['p'][0] = -1
        elif op[0] == 'app': m['p'].append(op[1])
        return None
    def at(self, i, p): return self.H * Vector3(*[a + b for a, b in zip((self.FP if i == 1 else self.P)[p], self.off[i])])
    def reset(self, cfg):
        O.reset(); O.periodic = True; O.cell.hSize = mat(CELLS[cfg.split(':')[1]]); O.dt = 1e-12; self.H = O.cell.hSize; self.off = {0: (0, -1, 0), 1: (0, 0, 0), 2: (1, 0, 2), 3: (0, 0, -1)}
        O.engines = engines(); O.engines[1].boundDispatcher.functors = [Bo1_Sphere_Aabb(), Bo1_Facet_Aabb()]; O.engines[2].geomDispatcher.functors = [Ig2_Sphere_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom()]
        O.bodies.append(utils.sphere(self.at(0, 0), .45, fixed=True))
        f = utils.facet(self.FV, fixed=True); self.fo = f.state.pos; f.state.pos = self.at(1, 0) + self.fo; O.bodies.append(f)
        O.bodies.append(utils.sphere(self.at(2, 5), .5, fixed=True)); O.step()
    def do(self, op):
        B = O.bodies
        if op[0] == 'mv':
            z = self.at(op[1], op[2]) + (self.fo if op[1] == 1 else Vector3.Zero); b = B[op[1]]; d = self.H.inverse() * (z - b.state.pos)
            w = [round(v) for v in d]; self.off[op[1]] = tuple(o - k for o, k in zip(self.off[op[1]], w)); z = z - self.H * Vector3(*w); a = b.state.pos
            n = int(max(abs(v - k) for v, k in zip(d, w)) / .1) + 1
            for k in range(1, n + 1):
                b.state.pos = a + (z - a) * (k / n); self.seen()
                if k < n: O.step(); bad = self.cmp()
                if k < n and bad: raise AssertionError('on the way: ' + bad)
        elif op[0] == 'era': B.erase(0)
        elif op[0] == 'app': B.append(utils.sphere(self.at(3, op[1]), .4, fixed=True))
        elif op[0] == 'clr': O.interactions.clear()
        self.seen(); O.step()
    def seen(self): self.live = {b.id: b.state.pos for b in O.bodies}
    def cmp(self):
        H = self.H; got = {(min(x.id1, x.id2), max(x.id1, x.id2)): x for x in O.interactions}; F = [self.live[1] - self.fo + Vector3(*v) for v in self.FV]; fc = self.live[1] - self.fo; F1 = [tuple(v) for v in F]
        for i in sorted(self.live):
            if i == 1: continue
            r = O.bodies[i].shape.radius; best = None; s = H.inverse() * (F[0] - self.live[i]); base = [round(s[k]) for k in range(3)]
            for o in itertools.product((-1, 0, 1), repeat=3):
                n = [base[k] + o[k] for k in range(3)]; q = self.live[i] + H * Vector3(*n); L = (q - fc).norm() - 1.
                if best is not None and L > best[0]: continue   # a sphere of radius 1 holds the facet
                L = tri_dist(tuple(q), F1)
                if best is None or L < best[0] - 1e-12: best = (L, n)
            x = got.get((min(i, 1), max(i, 1))); g = best[0] - r
            if abs(g) < 1e-9: continue
            if g < 0 and x is None: return 'sphere %d and the facet overlap by %g (sphere displaced by %s cells) but have no contact' % (i, -g, best[1])
            if g > 0 and x is not None: return 'sphere %d and the facet are apart by %g but have a contact' % (i, g)
            if x is not None:
                cd = [int(v) for v in x.cellDist]
                if x.id1 == i: cd = [-v for v in cd]
                if cd != best[1]: return 'contact of sphere %d and the facet is with the image %s, nearest is %s' % (i, cd, best[1])
                if abs(x.geom.penetrationDepth + g) > 1e-9: return 'contact of sphere %d and the facet: overlap %g, geometry says %g' % (i, x.geom.penetrationDepth, -g)
    def check(self, m): return self.cmp()
    def outcome(self, m): return m['c'] + repr(sorted((x.id1, x.id2, tuple(x.cellDist)) for x in O.interactions))
EN = ((0, -.04, .06, 1.02), (1.02, .02, -.04, .94))
def corner(ctx, cfg, i):
    """One body around the corner of the cell; another appended later, around the corner too, in the same or another image."""
    for e in itertools.product(EN[0], repeat=3):
        for p in itertools.product(EN[1], repeat=2):
            case = [cfg, [e, (EN[1][i],) + p]]; ctx.case(case)
            O.reset(); O.periodic = True; H = O.cell.hSize = mat(CELLS[cfg[2:]]); O.dt = 1e-12; O.engines = engines(); live = {}
            for k, q in enumerate(case[1]):
                O.bodies.append(utils.sphere(H * Vector3(*q), .5, fixed=True)); live[k] = (.5, H * Vector3(*q)); O.step(); bad = compare(live)
                if bad: ctx.violation('body %d put at %s of the cell: %s' % (k, q, bad)); return
            ctx.trace(2, 'corner'); ctx.state((cfg, e, p, i))
    ctx.sample([cfg, i])
class Big(Seq):
    """A floor (box) or a facet larger than the cell in x and y, spheres with lower and higher ids above and below, also in other images along z."""
    Z = [1.6, 2.6, .35, 7.75, 5., 9.65, -.1]; X = [(.1, .1), (2.4, 4.9), (4.8, .3)]; BZ = [1., 1.5, .2]
    CF = {'f3': (7.5, .3, 8), 'f1.4': (3.5, .3, 8), 'f.7': (1.75, .3, 8), 'far': (2500., .25, 8), 'shal': (8, .3, 6)}
    def init(self, cfg): return {'c': cfg, 'p': [0, 0, 4], 'b': 0}
    def enabled(self, m):
        ops = [['mv', i, q] for i in (0, 2, 3)[:len(m['p']) - 1] if m['p'][i] != -1 for q in range(len(self.Z)) if q != m['p'][i]] + [['box', q] for q in range(3) if q != m['b']] + [['clr']]
        if m['p'][0] != -1: ops.append(['era', 0])
        if len(m['p']) < 4: ops.append(['app', 2])
        return ops
    def step(self, m, op):
        if op[0] == 'mv': m['p'][op[1]] = op[2]
        elif op[0] == 'box': m['b'] = op[1]
        elif op[0] == 'era': m['p'][0] = -1
        elif op[0] == 'app': m['p'].append(op[1])
        return None
    def at(self, i, z): self.n += 1; x = (2.1, 2.6) if self.ext < 2 else self.X[(i + self.n) % 3]; return Vector3(x[0], x[1], z)
    def reset(self, cfg):
        self.ext, self.th, self.zd = self.CF[cfg.split(':')[1]]; self.n = 0
        O.reset(); O.periodic = True; O.cell.setBox(5, 5, self.zd); O.dt = 1e-12
        O.engines = engines(allowBiggerThanPeriod=True); O.engines[1].boundDispatcher.functors = [Bo1_Sphere_Aabb(), Bo1_Box_Aabb()]; O.engines[2].geomDispatcher.functors = [Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom()]
        O.bodies.append(utils.sphere(self.at(0, self.Z[0]), .5, fixed=True)); O.bodies.append(utils.box((2.5, 2.5, 1.), (self.ext, self.ext, self.th), fixed=True)); O.bodies.append(utils.sphere(self.at(2, self.Z[4]), .55, fixed=True)); O.step()
    def go(self, i, z):
        b = O.bodies[i]; a = b.state.pos; n = int((z - a).norm() / .7) + 1
        for k in range(1, n + 1):
            b.state.pos = a + (z - a) * (k / n); O.step(); bad = self.cmp()
            if bad: raise AssertionError('after a step: ' + bad)
    def do(self, op):
        if op[0] == 'mv': self.go(op[1], self.at(op[1], self.Z[op[2]]))
        elif op[0] == 'box': self.go(1, Vector3(2.5, 2.5, self.BZ[op[1]]))
        elif op[0] == 'era': O.bodies.erase(0); O.step()
        elif op[0] == 'app': O.bodies.append(utils.sphere(self.at(3, self.Z[op[1]]), .4, fixed=True)); O.step()
        elif op[0] == 'clr': O.interactions.clear(); O.step()
    def cmp(self):
        got = {(min(x.id1, x.id2), max(x.id1, x.id2)): x for x in O.interactions}; zb = O.bodies[1].state.pos[2]
        for b in O.bodies:
            if b.id == 1: continue
            r = b.shape.radius; z = b.state.pos[2] - zb; n = -round(z / self.zd); d = abs(z + n * self.zd); g = d - self.th - r; x = got.get((min(1, b.id), max(1, b.id)))
            if abs(g) < 1e-9: continue
            if g < 0 and x is None: return 'sphere %d overlaps the floor by %g but has no contact' % (b.id, -g)
            if g > 0 and x is not None: return 'sphere %d is %g away from the floor but has a contact' % (b.id, g)
            if x is not None:
                cd = [int(v) * (-1 if x.id1 == b.id else 1) for v in x.cellDist]
                if cd != [0, 0, n]: return 'contact of sphere %d and the floor is with the image %s, nearest is %s' % (b.id, cd, [0, 0, n])
                if d > self.th and abs(x.geom.penetrationDepth + g) > 1e-9: return 'contact of sphere %d and the floor: overlap %g, geometry says %g' % (b.id, x.geom.penetrationDepth, -g)
    def check(self, m): return self.cmp()
    def outcome(self, m): return m['c'] + repr(sorted((x.id1, x.id2, tuple(x.cellDist)) for x in O.interactions))
def model(cfg): return Big() if cfg[0] == 'G' else Jump() if cfg[0] == 'J' else Face() if cfg[0] == 'T' else Flight()
def jobs(tier): return sorted(prefixes(Jump(), 1, ['J:' + k for k in CELLS]) + prefixes(Flight(), 1, ['F:' + k for k in FL]) + prefixes(Face(), 1, ['T:' + k for k in CELLS]) + prefixes(Big(), 1, ['G:' + k for k in Big.CF]) + [['N:' + k, i] for k in CELLS for i in range(4)], key=lambda j: j[0])
def setup():
    global O, utils, Vector3, Matrix3
    from yade import utils
    from minieigen import Vector3, Matrix3
    import yade.wrapper as w
    for k in 'Bo1_Box_Aabb Ig2_Box_Sphere_ScGeom Bo1_Facet_Aabb Ig2_Facet_Sphere_ScGeom InsertionSortCollider Bo1_Sphere_Aabb InteractionLoop Ig2_Sphere_Sphere_ScGeom Ip2_FrictMat_FrictMat_FrictPhys Law2_ScGeom_FrictPhys_CundallStrack ForceResetter NewtonIntegrator FrictMat'.split(): globals()[k] = getattr(w, k)
    O = load()
def run(job, ctx):
    if job[0][0] == 'N': return corner(ctx, *job)
    model(job[0]).run(job, ctx, (DEPTH if job[0][0] in 'JTG' else SEG)[ctx.tier])
def replay(case, ctx):
    if case[0][0] == 'N': return corner(ctx, case[0], EN[1].index(case[1][1][0]))
    model(case[0]).replay_path(ctx, case[0], case[1])
