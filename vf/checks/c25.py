"""C25: geometry of contacts of a sphere with a sphere, facet, box, wall or grid connection in every relative position."""
import math, itertools
import numpy as np
from vf.yd import *
LEVEL = 'model_checking'
N = {'quick': 1, 'thorough': 2}
KINDS = ['fa', 'fo', 'fs', 'bx', 'sp', 'gc', 'w0', 'w1', 'w2']
BOUNDS = {t: 'a sphere at every position of a lattice (340-1452 positions per shape) around 3 triangles, a box, a sphere, a grid connection and walls of 3 axes, after every sequence of %d earlier positions out of 6 (far, above, at an edge, at a corner, behind, deep); shape turned and moved between; both orders of ids; open scene and periodic scenes with the sphere in 2 other images' % n for t, n in N.items()}
RULE = 'a trace is one sequence of relative positions; existence of the contact, penetration, normal and contact point are compared with the nearest point of the shape, forces and moments of the contact must balance'
ASSUMPTIONS = ['shrinkFactor 0, walls acting on both sides', 'inside of a box the nearest face counts', 'moments between spheres and other shapes are not compared in periodic scenes (documented)', 'positions where the nearest point is not unique are not on the lattice']
R = .4
def rot(v):
    v = np.array(v, float); a = math.sqrt(v @ v)
    if a == 0: return np.eye(3)
    n = v / a; K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K
ORI = [np.eye(3), rot((.7, -.4, 1.1)), rot((-2.1, .9, .3)), rot((0, math.pi / 2, 0))]
TRI = {'fa': [(0, 0, 0), (1.1, .1, 0), (.4, .9, 0)], 'fo': [(0, 0, 0), (.5, -.15, 0), (1.5, .1, 0)], 'fs': [(0, 0, 0), (1.3, 0, 0), (1.25, .35, 0)]}
EXT = (.7, .5, .3); R1 = .55; GL = .9; GR = .12
def lattice(kind):
    j = np.array([.0137, .0211, .0173])
    if kind[0] == 'f': L = [(x, y, z) for x in np.linspace(-.45, 1.9, 11) for y in np.linspace(-.6, 1.3, 11) for z in (-.41, -.33, -.18, -.07, -.003, .0, .004, .09, .2, .31, .385, .43)]
    elif kind == 'bx': L = [(x, y, z) for x in np.linspace(-1.1, 1.1, 12) for y in np.linspace(-.9, .9, 11) for z in np.linspace(-.7, .7, 11)]
    elif kind == 'sp': L = [(x, y, z) for x in np.linspace(-1, 1, 9) for y in np.linspace(-1, 1, 9) for z in np.linspace(-1, 1, 9)]
    elif kind == 'gc': L = [(x, y, z) for x in np.linspace(-.6, 1.5, 15) for y in np.linspace(-.55, .55, 7) for z in np.linspace(-.55, .55, 7)]
    else: L = [(x, y, z) for x in np.linspace(-.5, .5, 7) for y in (-.3, 0, .4) for z in np.linspace(-.55, .55, 17)]
    return [np.array(p) + j for p in L]
def special(kind):
    if kind[0] == 'f': return [(5, 5, 5), (.6, .1, .2), (.5, -.3, .1), (-.1, -.1, .1), (.6, .1, -.2), (.55, .05, .011)]
    if kind == 'bx': return [(5, 5, 5), (.1, .07, .55), (.1, .6, .5), (.8, .6, .4), (-.1, -.07, -.55), (.1, .07, .2)]
    if kind == 'sp': return [(5, 5, 5), (.1, .07, .8), (.9, .05, .01), (-.5, .5, .5), (-.1, .03, -.8), (.1, .1, .2)]
    if kind == 'gc': return [(5, 5, 5), (.4, .02, .45), (1.1, .02, .3), (-.2, .1, .3), (.4, -.02, -.45), (.4, .1, .1)]
    return [(0, 5, 5), (.1, .07, .35), (.1, .07, .39), (.3, .2, -.1), (-.1, -.07, -.35), (.1, .07, .01)]
def seg(p, a, b):
    t = min(1., max(0., (p - a) @ (b - a) / ((b - a) @ (b - a)))); return a + t * (b - a)
def nearest(kind, p):
    """penetration, normal (towards the sphere), reach of the shape at the contact; local coordinates"""
    if kind[0] == 'f':
        T = [np.array(t, float) for t in TRI[kind]]; n = np.cross(T[1] - T[0], T[2] - T[0]); n /= np.linalg.norm(n)
        q = p - n * (n @ (p - T[0]))
        c = [seg(p, T[i], T[(i + 1) % 3]) for i in range(3)]
        if all(np.cross(T[(i + 1) % 3] - T[i], q - T[i]) @ n >= 0 for i in range(3)): c = [q]
        c = min(c, key=lambda x: np.linalg.norm(p - x)); d = p - c; l = np.linalg.norm(d)
        return R - l, d / l
    if kind == 'bx':
        e = np.array(EXT); c = np.clip(p, -e, e)
        if np.all(c == p):
            k = int(np.argmin(e - abs(p))); n = np.zeros(3); n[k] = math.copysign(1, p[k]); return R + e[k] - abs(p[k]), n
        d = p - c; l = np.linalg.norm(d); return R - l, d / l
    if kind == 'sp': l = np.linalg.norm(p); return R + R1 - l, p / l
    if kind == 'gc': c = seg(p, np.zeros(3), np.array([GL, 0, 0])); d = p - c; l = np.linalg.norm(d); return R + GR - l, d / l
    n = np.array([0, 0, math.copysign(1, p[2])]); return R - abs(p[2]), n
def jobs(tier):
    out = []
    for k in KINDS:
        for sw in (0, 1):
            for per in (0, 1, 2):
                if (k[0] == 'w' or k == 'gc') and per: continue
                for o in (range(1) if k[0] == 'w' else range(3)):
                    for h in itertools.product(range(6), repeat=N[tier]): out.append([k, sw, per, o, list(h)])
    return out
def setup():
    global O, w, utils, Vector3, Matrix3, Quaternion, g
    import yade.wrapper as w
    from yade import utils
    import yade.gridpfacet as g
    from minieigen import Vector3, Matrix3, Quaternion
    O = load()
def quat(M): q = Quaternion(Matrix3(*[float(x) for x in M.ravel()])); q.normalize(); return q
HS = np.array([[120., 9, 0], [0, 110, -6], [4, 0, 130]]); HB = np.diag([120., 110, 130])
IM = {0: (0, 0, 0), 1: (1, 0, -1), 2: (-2, 1, 0)}
_lat = {}
def case(job, ctx):
    kind, sw, per, o, hist = job
    if kind not in _lat: L = lattice(kind); _lat[kind] = L, [nearest(kind, p) for p in L], [np.array(p) for p in special(kind)]
    L, ex, S = _lat[kind]; H = HB if kind == 'bx' else HS
    O.reset()
    if per: O.periodic = True; O.cell.hSize = Matrix3(*[float(x) for x in H.ravel()])
    sh = H @ np.array(IM[per], float)
    O.materials.append(w.CohFrictMat(young=1e6, poisson=.3, density=1000, frictionAngle=.4, isCohesive=False, momentRotationLaw=False))
    O.materials.append(w.FrictMat(young=1e6, poisson=.3, density=1000, frictionAngle=.4))
    wall = kind[0] == 'w'; ax = int(kind[1]) if wall else 0
    n = len(L); side = int(math.ceil(n ** (1 / 3.)))
    org = [np.array([8.3 * (i % side), 8.1 * (i // side % side), 8.7 * (i // side // side)]) for i in range(n)]
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb(), w.Bo1_Facet_Aabb(), w.Bo1_Box_Aabb(), w.Bo1_Wall_Aabb(), w.Bo1_GridConnection_Aabb()], verletDist=0),
                 w.InteractionLoop([w.Ig2_Sphere_Sphere_ScGeom(), w.Ig2_Facet_Sphere_ScGeom(), w.Ig2_Box_Sphere_ScGeom(), w.Ig2_Wall_Sphere_ScGeom()] if kind != 'gc' else [w.Ig2_GridNode_GridNode_GridNodeGeom6D(), w.Ig2_Sphere_GridConnection_ScGridCoGeom()],
                                   [w.Ip2_FrictMat_FrictMat_FrictPhys()] if kind != 'gc' else [w.Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True, setCohesionOnNewContacts=False), w.Ip2_FrictMat_FrictMat_FrictPhys()], [w.Law2_ScGeom_FrictPhys_CundallStrack(sphericalBodies=False)] if kind != 'gc' else [w.Law2_ScGeom6D_CohFrictPhys_CohesionMoment(), w.Law2_ScGridCoGeom_FrictPhys_CundallStrack()])]
    W = None
    def P(r): return Vector3(*[float(x) for x in r])
    pairs = []
    if wall: W = O.bodies.append(utils.wall((0, 0, 0), axis=ax)) if not sw else None
    for i in range(n):
        def shape():
            if kind[0] == 'f':
                b = utils.facet([P(t) for t in TRI[kind]], fixed=True); c = np.array(V(b.state.pos)); return [O.bodies.append(b)], c, b
            if kind == 'bx': b = utils.box((0, 0, 0), EXT, fixed=True); return [O.bodies.append(b)], np.zeros(3), b
            if kind == 'sp': b = utils.sphere((0, 0, 0), R1, fixed=True); return [O.bodies.append(b)], np.zeros(3), b
            if kind == 'gc':
                n1 = O.bodies.append(g.gridNode(P(org[i]), GR, fixed=True, material=0)); n2 = O.bodies.append(g.gridNode(P(org[i] + np.array([GL, 0, 0])), GR, fixed=True, material=0))
                return [O.bodies.append(g.gridConnection(n1, n2, GR)), n1, n2], np.zeros(3), None
        if wall: ids, c = [W], np.zeros(3)
        elif not sw: ids, c, b = shape()
        s = O.bodies.append(utils.sphere((0, -100, 0) if wall else (0, 0, 0), R, fixed=True))
        if not wall and sw: ids, c, b = shape()
        pairs.append((ids, s, c))
    if wall and sw:
        W = O.bodies.append(utils.wall((0, 0, 0), axis=ax)); pairs = [([W], s, c) for ids, s, c in pairs]
    O.dt = 1e-6
    perm = {0: (2, 0, 1), 1: (0, 2, 1), 2: (0, 1, 2)}[ax]   # local z is the normal of the wall
    def place(i, p, k):
        ids, s, c = pairs[i]; Qm = ORI[(o + k) % 3 if not wall else 0]; x0 = org[i] + .1 * k * np.array([1, -2, 3])
        if wall:
            x = np.zeros(3); off = org[i].copy(); off[ax] = 0
            lp = np.array([0., 0, 0]); 
            t = [a for a in range(3) if a != ax]; lp[t[0]], lp[t[1]], lp[ax] = p[0], p[1], p[2]
            wp = .3 * k; x0 = np.zeros(3); x0[ax] = wp
            if i == 0: O.bodies[ids[0]].state.pos = P(x0)
            O.bodies[s].state.pos = P(off + lp + x0); return Qm, off + lp + x0
        X = x0 + Qm @ p
        if kind == 'gc':
            O.bodies[ids[1]].state.pos = P(x0); O.bodies[ids[2]].state.pos = P(x0 + Qm @ np.array([GL, 0, 0])); O.bodies[ids[0]].state.pos = P(x0)
        else: b = O.bodies[ids[0]]; b.state.pos = P(x0 + Qm @ c); b.state.ori = quat(Qm)
        O.bodies[s].state.pos = P(X + sh)
        return Qm, X
    for k, h in enumerate(hist):
        for i in range(n): place(i, S[h], k)
        O.step()
    k = len(hist); fr = [place(i, L[i], k) for i in range(n)]
    O.step()
    for i in range(n):
        ids, s, c = pairs[i]; Qm, X = fr[i]; pd, nl = ex[i]
        if wall: nn = np.zeros(3); nn[ax] = nl[2]
        else: nn = Qm @ nl
        real = None
        if O.interactions.has(ids[0], s):
            it = O.interactions[ids[0], s]
            if it.isReal: real = it
        what = '%s order %d image %d orientation %d, earlier positions %s, sphere at %s' % (kind, sw, per, o, hist, tuple(round(float(x), 4) for x in L[i]))
        if abs(pd) > 1e-9 and (real is not None) != (pd > 0): ctx.violation('%s: contact is %s, penetration %.6g' % (what, real is not None, pd)); return
        if real is not None:
            gm = real.geom; sg = 1 if real.id1 == ids[0] else -1
            if abs(gm.penetrationDepth - pd) > 1e-8: ctx.violation('%s: penetration %r, expected %r' % (what, gm.penetrationDepth, pd)); return
            if np.abs(sg * np.array(V(gm.normal)) - nn).max() > 1e-8: ctx.violation('%s: normal %s, expected %s' % (what, V(gm.normal), tuple(sg * nn))); return
            cp = X - nn * (R - (.5 * pd if not wall else pd)) + (sh if sg < 0 else 0)   # in the frame of body 1
            d = np.array(V(gm.contactPoint)) - cp

            if np.abs(d).max() > 1e-8: ctx.violation('%s: contact point %s, expected %s' % (what, V(gm.contactPoint), tuple(cp))); return
            if not wall:
                f = [np.array(V(O.forces.f(b))) for b in ids]; F = np.array(V(O.forces.f(s))); sc = max(1, np.abs(F).max())
                t = [np.array(V(O.forces.t(b))) for b in ids]; T = np.array(V(O.forces.t(s)))
                if np.abs(sum(f) + F).max() > 1e-7 * sc: ctx.violation('%s: forces do not balance' % what); return
                m = sum(t) + T + np.cross(X - org[i], F) + sum(np.cross(np.array(V(O.bodies[b].state.pos)) - org[i], x) for b, x in zip(ids, f))
                if (not per or kind == 'sp') and np.abs(m).max() > 1e-7 * sc: ctx.violation('%s: moments do not balance: %s' % (what, m)); return
                if F @ nn < 0: ctx.violation('%s: contact attracts' % what); return
            else:
                F = np.array(V(O.forces.f(s)))
                if F @ nn < 0: ctx.violation('%s: contact attracts' % what); return
        ctx.trace(k + 1, (kind, real is not None))
        ctx.state((kind, sw, per, (o + k) % 3, i))
def run(job, ctx):
    ctx.case(job); case(job, ctx); ctx.sample(job)
def replay(c, ctx): ctx.case(c); case(c, ctx)
