"""C21: packings of spheres and solids described by predicates."""
import math, itertools, os, tempfile
import numpy as np
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 4, 'thorough': 5}
TRI = {'quick': 5, 'thorough': 10}
BOUNDS = {t: 'packings: every sequence of %d operations (add, from list with and without clumps, from two lists, translate, rotate, scale, period set, cell repeated or filled, save+load, to+from simulation, filter) compared with a list of spheres; solids: 10 primitives, all their pairs with 4 boolean operations on 343 points with 4 margins, all triples of %d primitives with 16 combinations; generators: 46 settings of random and regular packings, 3 times each' % (d, TRI[t]) for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence on a packing, one solid evaluated on all points and margins, or one generated packing; each is compared with the definition'
ASSUMPTIONS = ['points closer than 1e-6 to the surface of a primitive (with the margin) are not evaluated', 'text files keep 6 digits', 'margins of ellipsoid and hyperboloid as the code defines them (not accurate, as documented)', 'GTS surfaces and the packing database are not covered']
A = lambda *x: np.array(x, float)
def unit(v): return v / math.sqrt(v @ v)
def qrot(axis, ang):
    n = unit(A(*axis)); K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]); return np.eye(3) + math.sin(ang) * K + (1 - math.cos(ang)) * K @ K
# ---- packings
LST = [((.1, .2, .3), .5, -1), ((2., 0, .5), .7, 4), ((2.5, 1, .5), .6, 4), ((-1., 3, 0), .4, 9)]
LST2 = [((1., 1, 1), .25), ((3., 1, 2), .5), ((0., -1, 2), .75)]
class M(Seq):
    def init(self, cfg): return {'p': [], 'cell': A(0, 0, 0), 'per': False, 'tol': 1e-12, 'last': None}
    def enabled(self, m):
        ops = [['add'], ['list'], ['lists'], ['plain'], ['file']]
        if m['p']: ops += [['tr'], ['rot'], ['sc'], ['neg'], ['sim'], ['filt']]
        if m['p'] and not m['per']: ops.append(['per'])
        if m['cell'].any() and len(m['p']) < 40: ops += [['rep'], ['fill']]
        return ops
    def mid(self, m): lo = np.min([c - r for c, r, k in m['p']], 0); hi = np.max([c + r for c, r, k in m['p']], 0); return lo, hi, .5 * (lo + hi)
    def rep(self, m, n):
        p = m['p']; mx = max([k for c, r, k in p] + [-1]) + 1; out = []
        for i in range(n[0]):
            for j in range(n[1]):
                for l in range(n[2]): out += [(c + m['cell'] * A(i, j, l), r, k if k < 0 else (k, i, j, l)) for c, r, k in p]
        m['p'] = self.norm(out); m['cell'] = m['cell'] * A(*n)
    def norm(self, p):
        seen = {}
        return [(c, r, -1 if not isinstance(k, tuple) and k < 0 else seen.setdefault(k, len(seen))) for c, r, k in p]
    def step(self, m, op):
        k = op[0]; p = m['p']; m['last'] = k
        if k == 'add': m['p'] = p + [(A(.3 * len(p), -.2, .1 * len(p)), .3 + .1 * len(p), -1)]
        elif k in ('list', 'lists', 'plain'): m['p'] = self.norm([(A(*x[0]), x[1], x[2]) for x in LST] if k == 'list' else [(A(*c), r, -1) for c, r in LST2]); m['cell'] = A(0, 0, 0); m['per'] = False; m['tol'] = 1e-12
        elif k == 'tr': m['p'] = [(c + A(.5, -1, 2), r, l) for c, r, l in p]
        elif k == 'rot': R = qrot((1, 2, -2), .7); o = self.mid(m)[2]; m['p'] = [(R @ (c - o) + o, r, l) for c, r, l in p]; m['per'] = m['per'] and not m['cell'].any(); m['cell'] = A(0, 0, 0)
        elif k in ('sc', 'neg'): f = 1.5 if k == 'sc' else -.8; o = self.mid(m)[2]; m['p'] = [(f * (c - o) + o, r * abs(f), l) for c, r, l in p]; m['cell'] = m['cell'] * f
        elif k == 'per': m['cell'] = A(4, 5, 6); m['per'] = True
        elif k == 'rep': self.rep(m, (2, 1, 1))
        elif k == 'fill': self.rep(m, [max(1, math.ceil(x / y)) for x, y in zip((4.5, 3, 5), m['cell'])]) if (m['cell'] > 0).all() else None
        elif k == 'file': m['tol'] = max(m['tol'], 2e-5)
        elif k == 'sim':
            if m['per'] and m['cell'].any(): m['cell'] = abs(m['cell'])
            else: m['cell'] = A(0, 0, 0); m['per'] = False
        elif k == 'filt':
            o = self.mid(m)[2]; d = A(1, 1, 1) - o; m['p'] = [(c + d, r, -1) for c, r, l in p if (c + d - r > A(-1.5, -1, -2)).all() and (c + d + r < A(3.5, 3, 4)).all()]; m['cell'] = A(0, 0, 0); m['per'] = False
        return None
    def reset(self, cfg): O.reset(); self.s = pack.SpherePack(); self.msg = None
    def do(self, op):
        k = op[0]; s = self.s
        if k == 'add': n = len(s); s.add((.3 * n, -.2, .1 * n), .3 + .1 * n)
        elif k == 'list': s.fromList([(Vector3(*c), r, l) if l >= 0 else (Vector3(*c), r) for c, r, l in LST])
        elif k == 'lists': s.fromList([Vector3(*c) for c, r in LST2], [r for c, r in LST2])
        elif k == 'plain': self.s = pack.SpherePack([(Vector3(*c), r) for c, r in LST2])
        elif k == 'tr': s.translate((.5, -1, 2))
        elif k == 'rot': s.rotate(Vector3(1 / 3., 2 / 3., -2 / 3.), .7)
        elif k in ('sc', 'neg'): s.scale(1.5 if k == 'sc' else -.8)
        elif k == 'per': s.cellSize = (4, 5, 6); s.isPeriodic = True
        elif k == 'rep': s.cellRepeat((2, 1, 1))
        elif k == 'fill':
            if min(s.cellSize) > 0: s.cellFill((4.5, 3, 5))
        elif k == 'file':
            f = tempfile.mktemp(); s.save(f); n = s if len(s) % 2 else pack.SpherePack([(Vector3(9, 9, 9), 1.)]); n.load(f); os.unlink(f)
            n.isPeriodic = n.isPeriodic; self.s = n
        elif k == 'sim':
            O.reset(); cs = V(s.cellSize); n = len(s); cl = s.getClumps()[1]; ids = s.toSimulation()
            if len(O.bodies) != n + len(cl) or sorted(ids) != list(range(n + len(cl))): self.msg = '%d bodies with ids %s for %d spheres' % (len(O.bodies), ids, n)
            if O.periodic != bool(s.isPeriodic): self.msg = 'simulation periodic: %s' % O.periodic
            for j, c in enumerate(cl):
                if {O.bodies[i].clumpId for i in c} != {n + j}: self.msg = 'clump of spheres %s not made' % list(c)
            if O.periodic and max(abs(x) for x in cs) > 0 and max(abs(abs(a) - b) for a, b in zip(cs, V(O.cell.size))) > 1e-9: self.msg = 'cell is %s' % O.cell.size
            t = s if n % 2 else pack.SpherePack([(Vector3(9, 9, 9), 1.)]); t.fromSimulation(); self.s = t
        elif k == 'filt':
            r = pack.filterSpherePack(pack.inAlignedBox((-1.5, -1, -2), (3.5, 3, 4)), s, returnSpherePack=False)
            self.s = pack.filterSpherePack(pack.inAlignedBox((-1.5, -1, -2), (3.5, 3, 4)), s, returnSpherePack=True)
            x = [V(b.state.pos) + (b.shape.radius,) for b in r]; y = [V(c) + (q,) for c, q in self.s]
            if len(x) != len(y) or any(abs(u - v) > 1e-9 for a, b in zip(x, y) for u, v in zip(a, b)): self.msg = 'filterSpherePack as list differs from that as packing'
    def check(self, m):
        if self.msg: return self.msg
        s = self.s; p = m['p']; tol = m['tol'] * 40
        if len(s) != len(p): return '%d spheres, should be %d' % (len(s), len(p))
        L = s.toList(); cl = self.norm([(0, 0, t[2] if len(t) > 2 else -1) for t in L])
        for i, (c, r, k) in enumerate(p):
            if max(abs(V(L[i][0])[j] - c[j]) for j in range(3)) > tol or abs(L[i][1] - r) > tol: return 'sphere %d is %s %s, should be %s %s' % (i, L[i][0], L[i][1], c.tolist(), r)
            if cl[i][2] != self.norm(p)[i][2]: return 'clump of sphere %d is %s; clumps should be %s' % (i, [x[2] for x in cl], [x[2] for x in self.norm(p)])
            if s[i] != L[i]: return 'sp[%d] is %s, in the list %s' % (i, s[i], L[i])
        it = [(V(c), r) for c, r in s]
        if it != [(V(t[0]), t[1]) for t in L]: return 'iteration differs from the list'
        if max(abs(V(s.cellSize)[j] - m['cell'][j]) for j in range(3)) > tol: return 'cellSize is %s, should be %s' % (s.cellSize, m['cell'].tolist())
        if bool(s.isPeriodic) != m['per']: return 'isPeriodic is %s, should be %s' % (s.isPeriodic, m['per'])
        nc = self.norm(p); ks = sorted({k for c, r, k in nc if k >= 0}); exp = ([i for i, x in enumerate(nc) if x[2] < 0], sorted([i for i, x in enumerate(nc) if x[2] == k] for k in ks)); g = s.getClumps()
        if list(g[0]) != exp[0] or sorted(list(x) for x in g[1]) != exp[1]: return 'getClumps() is %s, should be %s' % (g, exp)
        if s.hasClumps() != bool(ks): return 'hasClumps() is %s' % s.hasClumps()
        if not p: return None
        lo, hi, mid = self.mid(m); mn, mx = s.aabb()
        for nm, got, e in (('aabb minimum', mn, lo), ('aabb maximum', mx, hi), ('center', s.center(), mid), ('dim', s.dim(), hi - lo)):
            if max(abs(V(got)[j] - e[j]) for j in range(3)) > tol: return '%s is %s, should be %s' % (nm, got, e.tolist())
        e = sum(4 / 3 * math.pi * r ** 3 for c, r, k in p) / np.prod(hi - lo)
        if abs(s.relDensity() - e) > max(1e-9, tol) * e: return 'relDensity is %r, should be %r' % (s.relDensity(), e)
        for mass in (False, True):
            ed, cu = s.psd(bins=4, mass=mass); d = [2 * t[1] for t in L]; a, b = min(d), max(d)
            if a == b: a -= .5; b += .5
            w = [x ** 3 for x in d] if mass else [1.] * len(d); e = [a + i * (b - a) / 4 for i in range(5)]
            if max(abs(x - y) for x, y in zip(ed, e)) > 1e-9: return 'psd bins %s, should be %s' % (list(ed), e)
            for i in range(5):
                if any(abs(x - e[i]) < 1e-9 and 0 < i < 4 for x in d): continue
                x = sum(q for y, q in zip(d, w) if y < e[i] or i == 4) / sum(w)
                if abs(cu[i] - x) > 1e-9: return 'psd(mass=%s) up to %g is %r, should be %r' % (mass, e[i], cu[i], x)
    def key(self, m): return repr(([(V(c.round(9)), round(r, 9), k) for c, r, k in m['p']], V(m['cell']), m['per']))
    def outcome(self, m): return (len(m['p']), m['per'], bool(m['cell'].any()), m['last'])
S = M()
# ---- solids: name -> (constructor, distance inside (positive) or value; inside with margin q when d(pt, q) > 0)
def box_d(lo, hi): return lambda p, q: min(min(p - lo), min(hi - p)) - q
def cyl_d(a, b, R):
    ax = unit(b - a); h = math.sqrt((b - a) @ (b - a))
    def f(p, q): u = (p - a) @ ax; w = p - a - u * ax; return min(u - q, h - q - u, R - q - math.sqrt(w @ w))
    return f
def hyp_d(a, b, R, r):
    ax = unit(b - a); h = math.sqrt((b - a) @ (b - a)); c = h / 2 / math.sqrt((R / r) ** 2 - 1)
    def f(p, q): u = (p - a) @ ax; w = p - a - u * ax; return min(u - q, h - q - u, r * math.sqrt(1 + ((u - h / 2) / c) ** 2) - q - math.sqrt(w @ w))
    return f
def par_d(o, a, b, c):
    H = np.array([a - o, b - o, c - o]).T; Hi = np.linalg.inv(H); sc = [1 / math.sqrt(Hi[i] @ Hi[i]) for i in range(3)]
    def f(p, q): t = Hi @ (p - o); return min(min(t[i] * sc[i], (1 - t[i]) * sc[i]) for i in range(3)) - q
    return f
def ell_d(c, abc):
    def f(p, q):
        if min(abc) <= q: return -1
        return 1 - sum(((p[i] - c[i]) / (abc[i] - q)) ** 2 for i in range(3))
    return f
def notch_d(c, edge, normal, ap):
    e = unit(edge); n = normal - e * (e @ normal); n = unit(n); ins = np.cross(e, n)
    def f(p, q):   # distance to the notch {ins.(p-c) > 0, |n.(p-c)| < ap/2}; negative inside
        x = -(ins @ (p - c)); y = abs(n @ (p - c)) - ap / 2
        return (math.hypot(max(x, 0), max(y, 0)) if x > 0 or y > 0 else max(x, y)) - q
    return f
def half_d(c, d): n = unit(d); return lambda p, q: n @ (p - c) - q
def poly_d(pl): return lambda p, q: min(unit(d) @ (p - c) for c, d in pl) - q
PL = [(A(-1, 0, 0), A(1, 0, .2)), (A(0, -1, 0), A(.1, 1, 0)), (A(0, 0, -1), A(0, 0, 1)), (A(.8, .8, .8), A(-1, -1, -1)), (A(1, 0, 0), A(-1, .2, 0))]
T3 = lambda v: Vector3(*V(v))
PR = {'sphere': (lambda: pack.inSphere((.1, 0, -.2), 1.1), lambda p, q: 1.1 - q - math.sqrt((p - A(.1, 0, -.2)) @ (p - A(.1, 0, -.2)))),
      'box': (lambda: pack.inAlignedBox((-1, -.5, -.7), (.6, 1.2, .9)), box_d(A(-1, -.5, -.7), A(.6, 1.2, .9))),
      'notch': (lambda: pack.notInNotch((.2, .1, 0), (.1, 1, 0), (0, .2, 1), .5), notch_d(A(.2, .1, 0), A(.1, 1, 0), A(0, .2, 1), .5)),
      'cyl': (lambda: pack.inCylinder((-.8, -.3, -.6), (.9, .5, .4), .7), cyl_d(A(-.8, -.3, -.6), A(.9, .5, .4), .7)),
      'half': (lambda: pack.inHalfSpace((.1, -.2, .3), (1, -2, .5)), half_d(A(.1, -.2, .3), A(1, -2, .5))),
      'par': (lambda: pack.inParallelepiped((-1, -1, -1), (1, -.6, -.9), (-.5, 1, -1), (-.8, -.9, 1)), par_d(A(-1, -1, -1), A(1, -.6, -.9), A(-.5, 1, -1), A(-.8, -.9, 1))),
      'ell': (lambda: pack.inEllipsoid((.1, .2, 0), (1.2, .6, .9)), ell_d(A(.1, .2, 0), (1.2, .6, .9))),
      'hyp': (lambda: pack.inHyperboloid((-.2, 0, -1.1), (.1, .2, 1), .9, .4), hyp_d(A(-.2, 0, -1.1), A(.1, .2, 1), .9, .4)),
      'space': (lambda: pack.inSpace(), lambda p, q: 1.),
      'poly': (lambda: pack.inConvexPolyhedron([(T3(c), T3(d)) for c, d in PL]), poly_d(PL))}
PN = list(PR); OPS = '|&-^'; PADS = (0., .07, .3, -.1)
PTS = [A(*p) + A(.0123, -.0077, .0091) for p in itertools.product((-1.2, -.8, -.4, 0, .4, .8, 1.2), repeat=3)]; PT2 = PTS[::3]
def val(e, p, q, dn):
    """Truth of the expression at the point, or None if it is too close to the surface."""
    if isinstance(e, str):
        d = dn(e, p, q); return None if abs(d) < 1e-6 else d > 0
    o, a, b = e; x, y = val(a, p, q, dn), val(b, p, q, dn)
    if o == '|': r = (x, y, lambda s, t: s or t)
    elif o == '&': r = (x, y, lambda s, t: s and t)
    else:
        yn = val(b, p, -q, dn)
        if o == '-': r = (x, yn, lambda s, t: s and not t)
        else:
            xn = val(a, p, -q, dn)
            if None in (x, y, xn, yn): return None
            return (x and not yn) or (y and not xn)
    return None if None in r[:2] else r[2](r[0], r[1])
def build(e):
    if isinstance(e, str): return PR[e][0]()
    a, b = build(e[1]), build(e[2]); return {'|': lambda: a | b, '&': lambda: a & b, '-': lambda: a - b, '^': lambda: a ^ b}[e[0]]()
def bbox(e):
    if isinstance(e, str): return [V(x) for x in BB[e]]
    (a, b), (c, d) = bbox(e[1]), bbox(e[2]); f = lambda g, u, v: tuple(g(x, y) for x, y in zip(u, v))
    if e[0] in '|^': return [f(min, a, c), f(max, b, d)]
    if e[0] == '&': return [f(max, a, c), f(min, b, d)]
    return [a, b]
DC = {}
def solid(e, ctx):
    ctx.case(['solid', e]); S_ = build(e); pts = PTS if isinstance(e, str) or all(isinstance(x, str) for x in e[1:]) else PT2
    bb = [V(x) for x in S_.aabb()]; n = 0; hits = 0
    def dn(nm, p, q):
        k = (nm, id(p), q); r = DC.get(k)
        if r is None: r = DC[k] = float(PR[nm][1](p, q))
        return r
    if any(abs(x - y) > 1e-9 and x != y for x, y in zip(bb[0] + bb[1], sum(bbox(e), ()))): ctx.violation('bounding box of %s is %s, should be %s' % (e, bb, bbox(e))); return
    for p in pts:
        t = Vector3(float(p[0]), float(p[1]), float(p[2]))
        for q in PADS:
            x = val(e, p, q, dn)
            if x is None: continue
            got = S_(t, q); n += 1; hits += got
            if bool(got) != x: ctx.violation('%s: point %s with margin %g is %s, should be %s' % (e, V(p), q, 'inside' if got else 'outside', 'inside' if x else 'outside')); return
            if got and q >= 0 and not all(l - 1e-9 <= c <= h + 1e-9 for l, c, h in zip(bb[0], p, bb[1])): ctx.violation('%s: point %s is inside, but outside of the bounding box %s' % (e, V(p), bb)); return
    ctx.state(('solid', str(e))); ctx.trace(n, 'solid')
# ---- generators
def gens():
    out = []
    for per in (0, 1):
        for kw in (dict(rMean=.3, rRelFuzz=.4, num=20), dict(rMean=.35), dict(rMean=.3, rRelFuzz=.3, distributeMass=True), dict(num=30, porosity=.8), dict(num=25, rRelFuzz=.5, porosity=.7), dict(num=20, rRelFuzz=.3, porosity=.8, distributeMass=True), dict(psdSizes=[.4, .6, .9], psdCumm=[0, .5, 1], num=25), dict(psdSizes=[.4, .6, .9], psdCumm=[0, .3, 1], distributeMass=True, num=25), dict(psdSizes=[.4, .6, .9], psdCumm=[0, .5, 1]), dict(rMean=.4, num=400)): out.append(['cloud', per, kw])
        for kw in (dict(num=15), dict(), dict(num=300)): out.append(['clumps', per, kw])
    for kw in (dict(rMean=.25, num=20), dict(rMean=.3, rRelFuzz=.2), dict(num=20, porosity=.8)): out.append(['skew', 1, kw])
    for kw in (dict(rMean=.2, num=10), dict(rMean=.25)): out.append(['flat', 0, kw])
    for e in ('box', 'sphere', 'cyl', ['&', 'box', 'notch'], ['|', 'sphere', 'par'], ['-', 'par', 'ell'], ['&', 'cyl', 'half']):
        for g in ('Ortho', 'Hexa'): out.append([g, 0, e])
    return out
def generate(g, ctx):
    ctx.case(['gen', g]); kind, per, kw = g; mn, mx = A(-1, 2, .5), A(2.5, 5, 3.7); bad = lambda t: ctx.violation('%s %s: %s' % (kind, kw, t))
    if kind in ('Ortho', 'Hexa'):
        for r, gap in ((.07, .02), (.1, 0)):
            bs = getattr(pack, 'regular' + kind)(build(kw), r, gap)
            X = np.array([V(b.state.pos) for b in bs])
            if len(bs) < 5: return bad('only %d spheres' % len(bs))
            for b in bs:
                x = val(kw, np.array(V(b.state.pos)), r, lambda n, p, q: float(PR[n][1](p, q)))
                if b.shape.radius != r or x is False: return bad('sphere at %s (radius %g) is not inside of the solid' % (b.state.pos, b.shape.radius))
            D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(2)); np.fill_diagonal(D, 9)
            if abs(D.min() - (2 * r + gap)) > 1e-9: return bad('smallest distance %g, should be %g' % (D.min(), 2 * r + gap))
        ctx.state(str(g)); ctx.trace(1, kind); return
    for rep in range(3):
        s = pack.SpherePack()
        H = np.diag(mx - mn)
        if kind == 'cloud': n = s.makeCloud(T3(mn), T3(mx), periodic=bool(per), **kw)
        elif kind == 'flat': mx = A(2.5, 2, 3.7); n = s.makeCloud(T3(mn), T3(mx), periodic=False, **kw)
        elif kind == 'skew': H = np.array([[3.5, .6, 0], [0, 3, .4], [.3, 0, 3.2]]); n = s.makeCloud(hSize=Matrix3(*[float(x) for x in H.ravel()]), periodic=True, **kw); mn = A(0, 0, 0)
        else:
            c1 = pack.SpherePack([(Vector3(3, 0, 0), .2), (Vector3(3.3, .1, 0), .25)]); c2 = pack.SpherePack([(Vector3(0, 5, 0), .3), (Vector3(.3, 5, .2), .15), (Vector3(-.3, 5, .1), .2)])
            n = s.makeClumpCloud(T3(mn), T3(mx), [c1, c2], periodic=bool(per), **kw)
        L = s.toList(); X = np.array([V(t[0]) for t in L]); R = np.array([t[1] for t in L]); cl = [t[2] if len(t) > 2 else -1 for t in L]
        if kind == 'clumps':
            gr = {}
            for i, k in enumerate(cl): gr.setdefault(k, []).append(i)
            if len(gr) != n or -1 in gr or sorted(gr) != list(range(n)): return bad('%d clumps, reported %d' % (len(gr), n))
            for k, m in gr.items():
                ref = [(A(3, 0, 0), .2), (A(3.3, .1, 0), .25)] if len(m) == 2 else [(A(0, 5, 0), .3), (A(.3, 5, .2), .15), (A(-.3, 5, .1), .2)]
                if len(m) != len(ref) or any(abs(R[i] - r) > 1e-12 for i, (c, r) in zip(m, ref)): return bad('clump %d is not one of the given' % k)
                for a in range(len(m)):
                    for b in range(a): 
                        if abs(np.linalg.norm(X[m[a]] - X[m[b]]) - np.linalg.norm(ref[a][0] - ref[b][0])) > 1e-9: return bad('clump %d is deformed' % k)
            if kw.get('num', 0) > 0 and n > kw['num']: return bad('%d clumps' % n)
            if n < min(kw.get('num', 12), 12): return bad('only %d clumps were placed' % n)
        else:
            if n != len(L): return bad('%d spheres, reported %d' % (len(L), n))
            if kw.get('num', -1) > 0 and (len(L) > kw['num'] or kw['num'] < 100 and len(L) != kw['num']): return bad('%d spheres instead of %d' % (len(L), kw['num']))
            if len(L) < 5: return bad('only %d spheres' % len(L))
            f = s.appliedPsdScaling; fz = kw.get('rRelFuzz', 0)
            lo, hi = (kw['rMean'] * (1 - fz), kw['rMean'] * (1 + fz)) if 'rMean' in kw else (kw['psdSizes'][0] / 2 * f, kw['psdSizes'][-1] / 2 * f) if 'psdSizes' in kw else (R.max() * (1 - fz) / (1 + fz) * .95 if fz else R.max(), 9)
            if R.min() < lo * (1 - 1e-9) or R.max() > hi * (1 + 1e-9): return bad('radii %g..%g, should be within %g..%g' % (R.min(), R.max(), lo, hi))
            if kw.get('num', 0) == len(L) and 'psdSizes' in kw and not kw.get('distributeMass'):
                q = sorted(2 * R / f); e = [np.interp((i + 1.5) / (len(L) + 1.), kw['psdCumm'], kw['psdSizes']) for i in range(len(L))]
                if max(abs(np.array(q) - e)) > .02: return bad('diameters %s do not follow the size distribution %s' % (q, e))
            if any(k >= 0 for k in cl): return bad('clumps')
        if bool(s.isPeriodic) != bool(per) and kind != 'clumps': return bad('isPeriodic is %s' % s.isPeriodic)
        if kind != 'skew' and max(abs(V(s.cellSize)[j] - ((mx - mn)[j] if per else 0)) for j in range(3)) > 1e-12: return bad('cellSize is %s' % s.cellSize)
        if not per and kind != 'flat' and ((X - R[:, None] < mn - 1e-9).any() or (X + R[:, None] > mx + 1e-9).any()): return bad('sphere outside of the box')
        if kind == 'flat' and abs(X[:, 1] - 2).max() > 0: return bad('spheres are not in the plane')
        if per and kind != 'clumps':
            F = np.linalg.solve(H, (X - mn).T).T
            if F.min() < -1e-9 or F.max() > 1 + 1e-9: return bad('sphere outside of the cell')
        D = X[:, None] - X[None]
        best = np.full(D.shape[:2], 1e9)
        sh = itertools.product((-2, -1, 0, 1, 2) if kind == 'clumps' else (-1, 0, 1), repeat=3) if per else [(0, 0, 0)]
        for z in sh: best = np.minimum(best, ((D + H @ A(*z)) ** 2).sum(2))
        ov = R[:, None] + R[None] - np.sqrt(best)
        for i in range(len(L)):
            for j in range(i):
                if ov[i, j] > 1e-9 and (cl[i] < 0 or cl[i] != cl[j]): return bad('spheres %d and %d overlap by %g' % (i, j, ov[i, j]))
    ctx.state(str(g)); ctx.trace(3, kind)
def jobs(tier):
    t = PN[:TRI[tier]]
    return [['S', x] for x in prefixes(S, 2)] + [['P', a] for a in PN] + [['T', [a, b]] for a in t for b in t] + [['G', i] for i in range(len(gens()))]
def setup():
    global O, pack, Vector3, Matrix3, BB
    from yade import pack
    from minieigen import Vector3, Matrix3
    import warnings; warnings.simplefilter('ignore')
    pack.SpherePackIterator.__next__ = pack.SpherePackIterator.next
    O = load(); BB = {k: PR[k][0]().aabb() for k in PN}
    inf = float('inf')
    ref = {'sphere': ((-1., -1.1, -1.3), (1.2, 1.1, .9)), 'box': ((-1, -.5, -.7), (.6, 1.2, .9)), 'notch': ((-inf,) * 3, (inf,) * 3), 'half': ((-inf,) * 3, (inf,) * 3), 'space': ((-inf,) * 3, (inf,) * 3), 'par': ((-1, -1, -1), (1.7, 1.5, 1.1)), 'ell': ((-1.1, -.4, -.9), (1.3, .8, .9))}
    a, b = A(-.8, -.3, -.6), A(.9, .5, .4); n = unit(b - a); k = np.sqrt(1 - n * n) * .7; ref['cyl'] = (np.minimum(a, b) - k, np.maximum(a, b) + k)
    a, b = A(-.2, 0, -1.1), A(.1, .2, 1); n = unit(b - a); k = np.sqrt(1 - n * n) * .9; ref['hyp'] = (np.minimum(a, b) - k, np.maximum(a, b) + k)
    BB.update(ref)
def run(job, ctx):
    k, x = job
    if k == 'S': S.run(x, ctx, DEPTH[ctx.tier])
    elif k == 'P':
        solid(x, ctx)
        for o in OPS:
            for b in PN: solid([o, x, b], ctx)
    elif k == 'T':
        for c in PN[:TRI[ctx.tier]]:
            for o, p in itertools.product(OPS, OPS): solid([o, [p, x[0], x[1]], c], ctx)
    else: generate(gens()[x], ctx)
    ctx.sample(job)
def replay(case, ctx):
    if case[0] == 'solid': solid(case[1], ctx)
    elif case[0] == 'gen': generate(case[1], ctx)
    else: S.replay_path(ctx, case[0], case[1])
