"""C07: life of a contact: made in the step in which bodies come to overlap, keeps its state while they do, gone in the step in which
they part, fresh when they meet again; geometry and elastic force follow the positions."""
import itertools
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 4, 'thorough': 6}
BOUNDS = {t: 'every sequence of %d operations (move of a body to any of 4-5 points, marking of the physics of a contact, reset of a contact by the user, clearing of potential or all contacts, erase and re-insertion of a body, group mask change of a separated body, collider forced to start again, save+load in memory), one step after each, in 7 scenes (spheres, clump, facet, wall, box, reversed ids, enlarged detection)' % d for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence; after each step every pair is compared with the model: real or not, step in which it was made, marked physics, ids order, normal, penetration, contact point and normal force against sphere geometry'
ASSUMPTIONS = ['FrictMat/ScGeom/CundallStrack contacts', 'exact tangency excluded by the choice of points', 'group masks change only for bodies without contacts']
PT = [(0, 0, 0), (.9, 0, 0), (.4, .85, 0), (.95, .2, .3), (5, 5, 5)]
# bodies: ('s',radius,start point or None)
CF = {
    'sss': dict(b=[('s', .5, 0), ('s', .52, 1), ('s', .45, 4)]),
    'rev': dict(b=[('s', .45, 4), ('s', .52, 1), ('s', .5, 0)]),
    'fac': dict(b=[('s', .5, 0), ('f',), ('s', .45, 4)]),
    'wal': dict(b=[('w',), ('s', .5, 0), ('s', .45, 4)]),
    'box': dict(b=[('s', .5, 0), ('s', .45, 4), ('b',)]),
    'clu': dict(b=[('s', .5, 0), ('s', .45, 4)], clump=True),
    'far': dict(b=[('s', .36, 0), ('s', .4, 1), ('s', .45, 4)], fac=1.4),
}
ZP = -.42   # plane of facet, wall and upper face of the box
def over(A, B, pa, pb, fac):
    if A[0] == 's' and B[0] == 's': return fac * (A[1] + B[1]) - math.dist(pa, pb)
    if A[0] != 's': A, B, pa, pb = B, A, pb, pa
    if A[0] != 's': return None
    return A[1] - (pa[2] - ZP)
class M(Seq):
    def init(self, cfg):
        d = CF[cfg]; m = {'c': cfg, 'pos': [b[2] if len(b) > 2 else None for b in d['b']], 'it': 0, 'real': {}, 'mask': [1] * len(d['b']), 'last': None}
        self.adv(m); return m
    def clumped(self, m, i, j): return False
    def adv(self, m):
        d = CF[m['c']]; fac = d.get('fac', 1.); new = {}
        for i, j in itertools.combinations(range(len(d['b'])), 2):
            if m['pos'][i] == -1 or m['pos'][j] == -1 or not m['mask'][i] & m['mask'][j]: continue
            P = [PT[m['pos'][k]] if m['pos'][k] is not None else None for k in (i, j)]
            o = over(d['b'][i], d['b'][j], P[0], P[1], fac)
            if o is None: continue
            old = m['real'].get((i, j))
            # with enlarged detection (and neverErase) a contact lives until somebody removes it
            if o > 0 or old and fac > 1: new[(i, j)] = old or [m['it'], None]
        m['real'] = new; m['it'] += 1
    def enabled(self, m):
        d = CF[m['c']]; ops = []
        for i, p in enumerate(m['pos']):
            if p is None: continue
            if p == -1: ops += [['ins', i, 0]]; continue
            if i and d['b'][0][0] == 's' or d['b'][0][0] != 's' and i != 1 or len(m['pos']) == 2 and i: ops += [['mv', i, q] for q in range(5) if q != p]
            elif m['c'] in ('fac', 'wal', 'box'): ops += [['mv', i, q] for q in (3, 4) if q != p]
        if m['last'] != 'nop': ops += [['nop']]
        for k, v in m['real'].items():
            if v[1] is None: ops.append(['tag', list(k), .1 + .01 * m['it']])
            ops.append(['rst', list(k)])
        if 1 <= m['it'] and m['pos'][0] not in (None, -1): ops.append(['era', 0])
        if m['last'] not in ('clr', 'enr', 'slm'): ops += [['clr'], ['enr'], ['slm']]
        occ = lambda q: any(x == q for x in m['pos'])
        ops = [o for o in ops if not (o[0] in ('mv', 'ins') and occ(o[2]))]
        far = [i for i, p in enumerate(m['pos']) if p == 4 and not any(i in k for k in m['real'])]
        if far: ops.append(['msk', far[0]])
        return ops
    def step(self, m, op):
        k = op[0]; m['last'] = k
        if k == 'mv' or k == 'ins': m['pos'][op[1]] = op[2]
        if k == 'ins': m['mask'][op[1]] = 1
        elif k == 'era': m['pos'][op[1]] = -1
        elif k == 'tag': m['real'][tuple(op[1])][1] = op[2]
        elif k == 'rst': del m['real'][tuple(op[1])]
        elif k == 'clr': m['real'] = {}
        elif k == 'msk': m['mask'][op[1]] ^= 3
        m['real'] = {x: list(y) for x, y in m['real'].items()}
        if k in ('era',): m['real'] = {x: y for x, y in m['real'].items() if op[1] not in x}
        self.adv(m)
        return None
    def mkb(self, b, p=None):
        if b[0] == 's': return utils.sphere(PT[p], b[1], fixed=True, mask=1)
        if b[0] == 'f': x = utils.facet([(-8, -8, ZP), (8, -8, ZP), (0, 14, ZP)]); return x
        if b[0] == 'w': return utils.wall((0, 0, ZP), axis=2)
        if b[0] == 'b': return utils.box((1, 1, ZP - .5), (6, 6, .5), fixed=True)
    def reset(self, cfg):
        d = self.d = CF[cfg]; O.reset(); O.dt = 1e-9; fac = d.get('fac', 1.)
        O.materials.append(FrictMat(young=1e4, poisson=.25, density=1000, frictionAngle=.5, label='mm'))
        for b in d['b']: O.bodies.append(self.mkb(b, b[2] if len(b) > 2 else None))
        self.clump = None
        if d.get('clump'):   # a clump far away: its members overlap each other and must never be in contact
            self.clump, self.mem = O.bodies.appendClumped([utils.sphere((-5, 0, 0), .5), utils.sphere((-5, .6, 0), .5)])
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=fac), Bo1_Facet_Aabb(), Bo1_Wall_Aabb(), Bo1_Box_Aabb()], verletDist=0),
            InteractionLoop([Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=fac), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack(neverErase=fac > 1)])]
        O.step()
    def do(self, op):
        k = op[0]; B = O.bodies; I = O.interactions
        if k == 'mv': B[op[1]].state.pos = PT[op[2]]
        elif k == 'tag': I[op[1][0], op[1][1]].phys.tangensOfFrictionAngle = op[2]
        elif k == 'rst': I.erase(*op[1])
        elif k == 'era': B.erase(op[1])
        elif k == 'ins': B.insertAtId(self.mkb(self.d['b'][op[1]], op[2]), op[1])
        elif k == 'clr': I.clear()
        elif k == 'enr': I.eraseNonReal()
        elif k == 'slm': O.saveTmp('c7', quiet=True); O.loadTmp('c7', quiet=True)
        elif k == 'msk': B[op[1]].mask ^= 3
        O.step()
        return None
    def check(self, m):
        I = O.interactions; B = O.bodies; d = self.d; F = {b.id: [0, 0, 0] for b in B}
        got = {(min(x.id1, x.id2), max(x.id1, x.id2)): x for x in I}
        e = m['real']
        if set(got) != set(e): return 'contacts %s, expected %s' % (sorted(got), sorted(e))
        if I.countReal() != len(e): return 'countReal %d, %d contacts' % (I.countReal(), len(e))
        for (i, j), (since, tag) in e.items():
            x = got[(i, j)]; g, p = x.geom, x.phys
            if I[i, j] is None or (I[j, i].id1, I[j, i].id2) != (x.id1, x.id2): return 'contact %d+%d not found by its ids' % (i, j)
            if x.iterMadeReal != since: return 'contact %d+%d made in step %d, says %d' % (i, j, since, x.iterMadeReal)
            t = tag if tag is not None else math.tan(.5)
            if abs(p.tangensOfFrictionAngle - t) > 1e-12: return 'physics of contact %d+%d: friction %g, expected %g (%s)' % (i, j, p.tangensOfFrictionAngle, t, 'lost' if tag is not None else 'not fresh')
            a, b = x.id1, x.id2; A, C = d['b'][a], d['b'][b]
            if A[0] == 's' and C[0] == 's':
                pa, pb = V(B[a].state.pos), V(B[b].state.pos); L = math.dist(pa, pb); n = [(v - u) / L for u, v in zip(pa, pb)]; un = A[1] + C[1] - L; r1, r2 = A[1], C[1]
                cp = [u + (r1 - un / 2) * w for u, w in zip(pa, n)]; ra, rb = A[1], C[1]
            else:
                if A[0] == 's': return 'contact %d+%d of %s has the sphere first' % (i, j, C[0])
                pb = V(B[b].state.pos); n = [0, 0, 1.]; un = C[1] - (pb[2] - ZP); ra = 2 * C[1] if False else None; rb = C[1]; cp = None
            if not vclose(V(g.normal), n, 1e-9, 1e-9): return 'normal of contact %d+%d is %s, expected %s' % (i, j, V(g.normal), n)
            if abs(g.penetrationDepth - un) > 1e-9: return 'penetration of contact %d+%d is %.12g, expected %.12g' % (i, j, g.penetrationDepth, un)
            if cp and not vclose(V(g.contactPoint), cp, 1e-9, 1e-9): return 'contact point of %d+%d is %s, expected %s' % (i, j, V(g.contactPoint), cp)
            if not cp and not (abs(g.contactPoint[0] - pb[0]) < 1e-9 and abs(g.contactPoint[1] - pb[1]) < 1e-9 and ZP - un - 1e-9 <= g.contactPoint[2] <= ZP + 1e-9): return 'contact point of %d+%d is %s' % (i, j, V(g.contactPoint))
            if cp and (abs(g.refR1 - ra) > 1e-12 or abs(g.refR2 - rb) > 1e-12): return 'radii of contact %d+%d: %g, %g' % (i, j, g.refR1, g.refR2)
            if cp:
                kn = 2 * 1e4 * ra * 1e4 * rb / (1e4 * ra + 1e4 * rb); ks = 2 * 1e4 * ra * .25 * 1e4 * rb * .25 / (1e4 * ra * .25 + 1e4 * rb * .25)
                if not close(p.kn, kn) or not close(p.ks, ks): return 'stiffness of contact %d+%d: %g, %g; expected %g, %g' % (i, j, p.kn, p.ks, kn, ks)
            fn = [p.kn * max(un, 0) * w for w in n]
            if d.get('fac', 1.) == 1. and un < 0: return 'contact %d+%d without overlap' % (i, j)
            if not vclose(V(p.normalForce), fn, 1e-9, 1e-9): return 'normal force of contact %d+%d: %s, expected %s' % (i, j, V(p.normalForce), fn)
            sf = V(p.shearForce)
            for w in range(3): F[a][w] -= fn[w] + sf[w]; F[b][w] += fn[w] + sf[w]
        for b in B:
            if not vclose(V(O.forces.f(b.id)), F[b.id], 1e-9, 1e-9): return 'force on body %d is %s, contacts give %s' % (b.id, V(O.forces.f(b.id)), F[b.id])
    def key(self, m): return repr((m['c'], m['pos'], m['mask'], sorted((k, m['it'] - v[0], v[1] is None) for k, v in m['real'].items())))
    def outcome(self, m): return m['c'] + repr(sorted((k, m['it'] - v[0], v[1] is None) for k, v in m['real'].items()))
S = M()
def jobs(tier): return prefixes(S, 2, list(CF))
def setup():
    global O, utils
    from yade import utils
    import yade.wrapper as w
    for k in 'InsertionSortCollider Bo1_Sphere_Aabb Bo1_Facet_Aabb Bo1_Wall_Aabb Bo1_Box_Aabb InteractionLoop Ig2_Sphere_Sphere_ScGeom Ig2_Facet_Sphere_ScGeom Ig2_Wall_Sphere_ScGeom Ig2_Box_Sphere_ScGeom Ip2_FrictMat_FrictMat_FrictPhys Law2_ScGeom_FrictPhys_CundallStrack ForceResetter FrictMat'.split(): globals()[k] = getattr(w, k)
    O = load()
def run(job, ctx): S.run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): S.replay_path(ctx, case[0], case[1])
