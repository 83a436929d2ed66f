"""C01: the body container over all histories of append / list append / insertion at a freed id / erase /
re-append / clear, compared with a reference list of slots after every operation."""
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 5, 'thorough': 7}
BOUNDS = {t: 'every enabled sequence of %d operations (append, append of a pair, insert-at-id on every slot and one beyond, erase of every slot and of ids out of range, re-append of an erased or of a live body, clear, step) from the empty scene and from a 3-body scene with the middle one erased' % d for t, d in DEPTH.items()}
RULE = 'a trace is one maximal operation sequence run on the real container; outcomes are distinct final slot patterns'
ASSUMPTIONS = ['bodies are spheres; at most 7 slots', 'single-threaded use of the container']
MAXN = {'quick': 5, 'thorough': 6}
class M(Seq):
    maxn = 5
    def init(self, cfg):
        m = {'slots': [], 'n': 0, 'gone': None, 'iter': 0, 'born': {}}
        if cfg == 'gap':
            m['slots'] = [1, None, 3]; m['n'] = 3; m['born'] = {1: 0, 3: 0}
        return m
    def enabled(self, m):
        s = m['slots']; n = len(s); ops = []
        if n < self.maxn: ops += [['app']]
        if n < self.maxn - 1: ops += [['app2']]
        for i in range(n): ops.append(['era', i])
        ops.append(['era', n]);
        if n: ops += [['era', -1]]
        for i in range(n + 1): ops.append(['ins', i])
        if m['gone'] is not None and n < self.maxn: ops.append(['rea'])
        live = [i for i in range(n) if s[i]]
        if live: ops.append(['dup', live[0]])
        if n: ops.append(['clr'])
        if m['iter'] < 1: ops.append(['step'])
        return ops
    def new(self, m): m['n'] += 1; return m['n']
    def step(self, m, op):
        s = m['slots']; k = op[0]
        if k == 'app':
            t = self.new(m); s.append(t); m['born'][t] = m['iter']; return len(s) - 1
        if k == 'app2':
            for _ in (0, 1): t = self.new(m); s.append(t); m['born'][t] = m['iter']
            return [len(s) - 2, len(s) - 1]
        if k == 'era':
            i = op[1]
            if i < 0 or i >= len(s) or not s[i]: return False
            m['gone'] = s[i]; s[i] = None; return True
        if k == 'ins':
            i = op[1]; t = self.new(m)
            if i >= len(s) or s[i]: return -1
            s[i] = t; m['born'][t] = m['iter']; return i
        if k == 'rea':
            t = m['gone']; m['gone'] = None; s.append(t); m['born'][t] = m['iter']; return len(s) - 1
        if k == 'dup': return 'IndexError'
        if k == 'clr': m['slots'] = []; m['gone'] = None; return None
        if k == 'step': m['iter'] += 1; return None
    def mk(self, tok=None):
        if tok is None: self.n += 1; tok = self.n
        b = utils.sphere((tok, 0, 0), .1); self.h[tok] = b; return b
    def reset(self, cfg):
        O.reset(); self.n = 0; self.h = {}; self.gone = None
        if cfg == 'gap':
            O.bodies.append([self.mk(), self.mk(), self.mk()]); O.bodies.erase(1)
    def do(self, op):
        k = op[0]
        if k == 'app': return O.bodies.append(self.mk())
        if k == 'app2': return list(O.bodies.append([self.mk(), self.mk()]))
        if k == 'era':
            i = op[1]; b = O.bodies[i] if 0 <= i < len(O.bodies) else None
            r = O.bodies.erase(i)
            if r: self.gone = b
            return bool(r)
        if k == 'ins': return O.bodies.insertAtId(self.mk(), op[1])
        if k == 'rea': return O.bodies.append(self.gone)
        if k == 'dup':
            try: O.bodies.append(O.bodies[op[1]])
            except IndexError: return 'IndexError'
            return 'appended twice'
        if k == 'clr': O.bodies.clear(); return None
        if k == 'step': O.step(); return None
    def check(self, m):
        s = m['slots']; B = O.bodies
        if len(B) != len(s): return 'container has %d slots, expected %d' % (len(B), len(s))
        for i, t in enumerate(s):
            for ix in (i, i - len(s)):
                b = B[ix]
                if (b is None) != (t is None): return 'bodies[%d] is %s, expected %s' % (ix, b, t)
                if b is not None:
                    if b.state.pos[0] != t: return 'bodies[%d] is the body created as #%g, expected #%d' % (ix, b.state.pos[0], t)
                    if b.id != i: return 'bodies[%d].id is %d' % (ix, b.id)
            if t is not None and B[i].iterBorn != m['born'][t]: return 'bodies[%d] born at %d, expected %d' % (i, B[i].iterBorn, m['born'][t])
        for bad in (len(s), -len(s) - 1):
            try: B[bad]; return 'bodies[%d] did not raise' % bad
            except IndexError: pass
        it = [(b.id, b.state.pos[0]) for b in B]
        if it != [(i, t) for i, t in enumerate(s) if t]: return 'iteration yields %s, slots are %s' % (it, s)
        if self.gone is not None and m['gone'] is not None and self.gone.id != -1: return 'erased body keeps id %d' % self.gone.id
    def key(self, m): return (tuple(bool(x) for x in m['slots']), m['gone'] is not None, m['iter'])
    def outcome(self, m): return ''.join('x' if x else '.' for x in m['slots'])
def jobs(tier):
    M.maxn = MAXN[tier]
    return prefixes(M(), 2 if tier == 'quick' else 3, ['empty', 'gap'])
def setup():
    global O, utils
    from yade import utils
    O = load()
def run(job, ctx):
    M.maxn = MAXN[ctx.tier]; M().run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx):
    M.maxn = MAXN[ctx.tier]; M().replay_path(ctx, case[0], case[1])
