"""C17: several simulations side by side: scenes, in-memory saves, resets and labels do not mix."""
import builtins, __main__
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 5, 'thorough': 6}
BOUNDS = {t: 'every sequence of %d operations (step, body appended, body erased, engines with labels assigned before or in the middle of a step, tag set, scene added, switch to a scene (also one that does not exist), switch to the other simulation, save and load in memory under 2 names (also load of a name that does not exist), scene to string and back, reset of this scene, of all scenes, of everything)' % d for t, d in DEPTH.items()}
RULE = 'a trace is one operation sequence; after each operation the current scene is compared with a scene which alone went through the operations that belong to it, and numbers, names and labels with a model of the scenes'
ASSUMPTIONS = ['spheres with contacts, gravity and damping', 'labels are looked at after assignment of engines and after loading', 'the other simulation is not used together with added scenes', 'resets, string conversion and failing operations at most once each per sequence']
class M(Seq):
    def init(self, cfg): return dict(sc=[''], cur=0, oth='', mem={}, sw=0, n=0, lab=None, used='')
    def enabled(self, m):
        h = m['sc'][m['cur']]
        o = ['s', 'b', 'e', 'g']
        if 'b' in h and h.count('x') < 1: o.append('x')
        if h.count('t') < 1: o.append('t')
        if len(m['sc']) < 3 and not m['sw']: o.append('A')
        if len(m['sc']) > 1: o += [x for x in '01' if int(x) != m['cur']]
        if len(m['sc']) == 3 and m['cur'] != 2: o.append('2')
        if len(m['sc']) == 1: o.append('W')
        o.append('Sa')
        if 'a' in m['mem']: o += ['La', 'Sb']
        if 'b' in m['mem']: o.append('Lb')
        if m['n']: o += [x for x in 'RQZT' if x not in m['used']]
        if 'F' not in m['used']: o += ['7', 'Lz']
        return o
    def add(self, m, c): m['sc'][m['cur']] += c
    def step(self, m, op):
        m['n'] += 1; m['lab'] = None
        if op in 'RQZT': m['used'] += op
        if op in ('7', 'Lz'): m['used'] += 'F'
        if op == 'W': m['sc'][0], m['oth'] = m['oth'], m['sc'][0]; m['sw'] ^= 1
        elif op == 'A': m['sc'].append(''); return len(m['sc']) - 1
        elif op in '0127':
            if int(op) < len(m['sc']): m['cur'] = int(op)
        elif op[0] == 'S': m['mem'][op[1]] = m['sc'][m['cur']]
        elif op[0] == 'L':
            if op[1] not in m['mem']: return 'RuntimeError'
            m['sc'][m['cur']] = m['mem'][op[1]]; m['lab'] = True
        elif op == 'R': m['sc'][m['cur']] = ''
        elif op == 'Q':
            m['sc'] = ['']; m['cur'] = 0
            if m['sw']: m['sw'] = 2   # no longer used
        elif op == 'Z': m['sc'] = ['']; m['cur'] = 0; m['oth'] = ''; m['sw'] = 0
        elif op == 'T': m['mem'][''] = m['sc'][m['cur']]; m['lab'] = True
        else:
            self.add(m, op)
            if op in 'eg': m['lab'] = True
        return None
    def reset(self, cfg):
        O.reset()
    def own(self, op):
        """operations on the current scene"""
        n = len(O.bodies)
        if op == 's': O.step()
        elif op == 'b':
            if not len(O.materials): O.materials.append(w.FrictMat(young=1e6, poisson=.3, density=1000, frictionAngle=.4, label='soil'))
            O.bodies.append(utils.sphere((.9 * n, .03 * n, 0), .5, material='soil'))
        elif op == 'x': O.bodies.erase(0)
        elif op == 't': O.tags['note'] = 'hello'
        elif op == 'e':
            O.dt = 1e-3; O.engines = self.eng()
        elif op == 'g':   # assigned while a step is under way
            __main__.vf17 = self.swap; e = list(O.engines)
            O.engines = e + [w.PyRunner(iterPeriod=1, initRun=True, command='vf17()')]
            O.step()
    def swap(self): O.engines = self.eng()
    def eng(self):
        return [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb()], label='lab_coll'), w.InteractionLoop([w.Ig2_Sphere_Sphere_ScGeom(label='lab_ig')], [w.Ip2_FrictMat_FrictMat_FrictPhys()], [w.Law2_ScGeom_FrictPhys_CundallStrack(label='lab_law')]), w.NewtonIntegrator(gravity=(0, 0, -9.81), damping=.2, label='lab_newton')]
    def do(self, op):
        r = None
        if op == 'W': O.switchScene()
        elif op == 'A': r = O.addScene()
        elif op in '0127': O.switchToScene(int(op))
        elif op[0] == 'S': O.saveTmp(self.name(op[1]), quiet=True)
        elif op[0] == 'L':
            try: O.loadTmp(self.name(op[1]), quiet=True)
            except RuntimeError: return 'RuntimeError'
        elif op == 'R': O.resetThisScene()
        elif op == 'Q': O.resetAllScenes()
        elif op == 'Z': O.reset()
        elif op == 'T': O.stringToScene(O.sceneToString(), self.name(''))
        else: self.own(op)
        return r
    def name(self, k): return 'vf17' + k
    def check(self, m):
        if O.thisScene != m['cur']: return 'current scene is number %r, expected %d' % (O.thisScene, m['cur'])
        have = set(O.lsTmp()); exp = set(self.name(k) for k in m['mem'])
        if exp - have: return 'saved simulations: %s, expected also %s' % (have, exp - have)
        if have - set(self.name(k) for k in ('a', 'b', '')): return 'saved simulations: %s' % have
        h = m['sc'][m['cur']]
        d = digest()
        e = REF.get(h)
        if e is None: return 'no reference for %r' % h
        if d != e: return 'scene with operations %r is %s, expected %s' % (h, d, e)
        if m['lab'] and h.strip('sbxt') and not self.bare(h):
            E = O.engines
            if len(E) < 4: return 'engines lost'
            for n, x in (('lab_coll', E[1]), ('lab_newton', E[3]), ('lab_ig', E[2].geomDispatcher.functors[0]), ('lab_law', E[2].lawDispatcher.functors[0])):
                if getattr(builtins, n, None) != x: return 'label %s is not the object in the engines' % n
    def bare(self, h): return not ('e' in h or 'g' in h)
    def key(self, m): return repr((m['sc'], m['cur'], m['oth'], sorted(m['mem'].items()), m['sw']))
    def outcome(self, m): return (len(m['sc']), m['cur'], len(m['mem']))
def digest():
    b = tuple((x.id, V(x.state.pos), V(x.state.vel), V(x.state.angVel), x.material.label) for x in O.bodies)
    i = tuple(sorted((x.id1, x.id2, x.isReal, V(x.phys.normalForce) if x.isReal else None) for x in O.interactions))
    return (b, i, O.iter, O.time, O.dt, len(O.engines), tuple(e.__class__.__name__ for e in O.engines), 'note' in O.tags.keys() and O.tags['note'], len(O.materials), O.periodic)
_m = M(); REF = {}
def need(tier):
    """histories of single scenes which occur"""
    D = DEPTH[tier]; out = ['']; cur = ['']
    for i in range(D):
        nxt = []
        for h in cur:
            for c in 'sbegxt':
                if c == 'x' and ('b' not in h or 'x' in h): continue
                if c == 't' and 't' in h: continue
                nxt.append(h + c)
        out += nxt; cur = nxt
    return out
def reference(tier):
    for h in need(tier):
        if h in REF: continue
        O.reset()
        for c in h: _m.own(c)
        REF[h] = digest()
def jobs(tier): return prefixes(_m, 2)
def setup():
    global O, w, utils
    import yade.wrapper as w
    from yade import utils
    O = load()
def run(job, ctx):
    if not REF: reference(ctx.tier)
    _m.run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx):
    if not REF: reference('quick')
    _m.replay_path(ctx, case[0], case[1])
