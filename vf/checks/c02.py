"""C02: the interaction container under all histories of contact creation, contact reset, body erase, id reuse,
re-append, purge, clear and simulation steps.  Every view of the container (pair lookup in both orders, membership,
iteration, counting, n-th access, per-body lists from the container and from the body) is compared with a reference
set of contacts after every operation."""
import itertools
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 4, 'thorough': 6}
BOUNDS = {t: 'every enabled sequence of %d operations (create/reset a contact of any pair in either order, purge of non-real ones, clear, erase/insert-at-id/append/re-append of bodies, step) over 4 bodies, once without and once with collider and contact loop, from an empty and from a fully connected start' % d for t, d in DEPTH.items()}
RULE = 'a trace is one maximal operation sequence on the real containers; outcomes are distinct final (live bodies, contacts) sets'
ASSUMPTIONS = ['4 to 5 spheres: three mutually overlapping, the others far apart', 'single-threaded use']
# position of the body living in slot i
POS = [(0, 0, 0), (1, 0, 0), (.5, .8, 0), (9, 0, 0), (20, 0, 0), (30, 0, 0)]
R = .7
def overlap(i, j): return math.dist(POS[i], POS[j]) < 2 * R
class M(Seq):
    def init(self, cfg):
        m = {'live': [1, 1, 1, 1], 'c': {}, 'col': cfg[0] == 'c', 'gone': None, 'stepped': False}
        if cfg[1] == 'f':
            for i, j in itertools.combinations(range(4), 2): m['c'][(i, j)] = 'R'
        return m
    def pairs(self, m):
        L = [i for i in range(len(m['live'])) if m['live'][i]]
        return list(itertools.combinations(L, 2))
    def enabled(self, m):
        ops = []
        for i, j in self.pairs(m):
            st = m['c'].get((i, j))
            if not m['col'] or not overlap(i, j) or True:
                ops.append(['mk', i, j] if (i + j) % 2 else ['mk', j, i])
            if st == 'R': ops.append(['rst', j, i])
        if not m['col']: ops.append(['purge'])
        ops.append(['clr'])
        for i, a in enumerate(m['live']):
            if a: ops.append(['era', i])
            else: ops.append(['ins', i])
        if m['gone'] is not None and len(m['live']) < 6: ops.append(['rea'])
        if m['col']: ops.append(['step'])
        return ops
    def step(self, m, op):
        k = op[0]; c = m['c']
        if k == 'mk':
            p = tuple(sorted(op[1:]))
            if p in c: return 'exists'
            c[p] = 'R'; return 'ok'
        if k == 'rst':
            p = tuple(sorted(op[1:]))
            if p in c: c[p] = 'P'
            return None
        if k == 'purge':
            for p in [p for p in c if c[p] == 'P']: del c[p]
            return None
        if k == 'clr': c.clear(); return None
        if k == 'era':
            i = op[1]; m['live'][i] = 0; m['gone'] = i
            for p in [p for p in c if i in p]: del c[p]
            return True
        if k == 'ins': m['live'][op[1]] = 1; return op[1]
        if k == 'rea': m['gone'] = None; m['live'].append(1); return len(m['live']) - 1
        if k == 'step':
            for i, j in self.pairs(m):
                if overlap(i, j): c[(i, j)] = 'R'
                elif c.get((i, j)) == 'P': del c[(i, j)]
                elif c.get((i, j)) == 'R': c[(i, j)] = 'P'
            return None
    def body(self, i): return utils.sphere(POS[i], R, fixed=True)
    def reset(self, cfg):
        O.reset()
        for i in range(4): O.bodies.append(self.body(i))
        loop = InteractionLoop([Ig2_Sphere_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()])
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=0, label='collider'), loop] if cfg[0] == 'c' else [loop]
        O.dt = 1e-9
        self.gone = None; self.col = cfg[0] == 'c'
        if cfg[1] == 'f':
            for i, j in itertools.combinations(range(4), 2): utils.createInteraction(i, j)
    def do(self, op):
        k = op[0]
        if k == 'mk':
            try: I = utils.createInteraction(op[1], op[2])
            except Exception as e:
                if 'exist' in str(e): return 'exists'
                raise
            return 'ok' if sorted((I.id1, I.id2)) == sorted(op[1:]) and I.isReal else 'wrong interaction'
        if k == 'rst': return O.interactions.erase(op[1], op[2])
        if k == 'purge': return O.interactions.eraseNonReal()
        if k == 'clr': return O.interactions.clear()
        if k == 'era': self.gone = O.bodies[op[1]]; return O.bodies.erase(op[1])
        if k == 'ins': return O.bodies.insertAtId(self.body(op[1]), op[1])
        if k == 'rea':
            i = len(O.bodies); self.gone.state.pos = POS[i]; b = self.gone; self.gone = None; return O.bodies.append(b)
        if k == 'step': O.step(); return None
    def check(self, m):
        live = m['live']; c = m['c']; I = O.interactions; n = len(live)
        P = lambda x: tuple(sorted((x.id1, x.id2)))
        allI = [(P(x), x.isReal) for x in I.all()]
        ok = lambda p: live[p[0]] and live[p[1]]
        dead = [p for p, r in allI if not ok(p)]
        if any(r for p, r in allI if not ok(p)): return 'a contact of an erased body is still real: %s' % allI
        if len(set(p for p, r in allI)) != len(allI): return 'a pair is listed twice: %s' % allI
        exp = {p: v == 'R' for p, v in c.items()}
        got = {p: r for p, r in allI if ok(p)}
        if got != exp: return 'contacts are %s, expected %s' % (sorted(got.items()), sorted(exp.items()))
        real = sorted(p for p in exp if exp[p])
        if len(I) != len(allI): return 'len is %d but %d are listed' % (len(I), len(allI))
        if I.countReal() != len(real): return 'countReal %d, expected %d' % (I.countReal(), len(real))
        it = sorted(P(x) for x in I)
        if it != real: return 'iteration yields %s, expected %s' % (it, real)
        if sorted(P(x) for x in I.all(onlyReal=True)) != real: return 'all(onlyReal) differs from %s' % real
        if sorted(P(I.nth(k)) for k in range(len(real))) != real: return 'nth access differs'
        try: I.nth(len(real)); return 'nth beyond the end did not raise'
        except IndexError: pass
        for i in range(n):
            for j in range(n):
                p = (i, j) if i < j else (j, i)
                h = bool(I.has(i, j))
                try: x = I[i, j]
                except IndexError: x = None
                if i != j and ok(p):
                    e = p in exp
                    if h != e: return 'has(%d,%d) is %s, expected %s' % (i, j, h, e)
                    if (x is not None) != e: return 'lookup [%d,%d] gives %s, expected %s' % (i, j, x, e)
                    if x is not None and (P(x) != p or x.isReal != exp[p]): return 'lookup [%d,%d] gives %s real=%s' % (i, j, P(x), x.isReal)
                elif x is not None and (x.isReal or P(x) != p): return 'lookup [%d,%d] of a dead pair gives real contact' % (i, j)
            mine = [p for p in real if i in p]
            if sorted(P(x) for x in I.withBody(i)) != mine: return 'withBody(%d) differs from %s' % (i, mine)
            if live[i]:
                if sorted(p for p in (P(x) for x in I.withBodyAll(i)) if ok(p)) != sorted(p for p in exp if i in p): return 'withBodyAll(%d) differs' % i
                if sorted(P(x) for x in O.bodies[i].intrs()) != mine: return 'bodies[%d].intrs() is %s, expected %s' % (i, sorted(P(x) for x in O.bodies[i].intrs()), mine)
        for i, j in ((0, n), (n, n + 1), (n + 3, 0)):
            if I.has(i, j): return 'has(%d,%d) is true for an id out of range' % (i, j)
            try: I[i, j]; return 'lookup [%d,%d] out of range did not raise' % (i, j)
            except IndexError: pass
    def key(self, m): return (tuple(m['live']), tuple(sorted(m['c'].items())), m['gone'])
    def outcome(self, m): return repr(self.key(m))
CFGS = ['re', 'rf', 'ce', 'cf']
def jobs(tier): return prefixes(M(), 2, CFGS)
def setup():
    global O, utils
    from yade import utils
    import yade.wrapper as w
    for k in ('InteractionLoop', 'Ig2_Sphere_Sphere_ScGeom', 'Ip2_FrictMat_FrictMat_FrictPhys', 'Law2_ScGeom_FrictPhys_CundallStrack', 'ForceResetter', 'InsertionSortCollider', 'Bo1_Sphere_Aabb'): globals()[k] = getattr(w, k)
    O = load()
def run(job, ctx): M().run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): M().replay_path(ctx, case[0], case[1])
