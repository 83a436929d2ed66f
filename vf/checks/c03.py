"""C03: clump membership and aggregate properties over all histories of clump operations."""
import itertools
from vf.seq import Seq, prefixes
from vf.yd import *
LEVEL = 'model_checking'
DEPTH = {'quick': 3, 'thorough': 4}
BOUNDS = {t: 'every enabled sequence of %d operations (clump any pair/triple, add bodies, members or whole clumps to a clump, release, erase of members/clumps with and without members, append clumped, property update, a kick followed by a step) from three start scenes of 4-5 non-overlapping bodies' % d for t, d in DEPTH.items()}
RULE = 'a trace is one maximal operation sequence on the real library; outcomes are distinct final partitions of bodies into clumps'
ASSUMPTIONS = ['spheres of different size plus one box; members do not overlap', 'after the erase of a single member the aggregate mass is only required to be right again after an explicit property update (documented behaviour)']
POS = [(0, 0, 0), (2.5, .3, -.2), (.4, 3.1, .5), (-2.2, 1.1, 2.7), (1.3, -3.4, 1.9), (4.4, 3.9, -3.1), (-4.5, -2.7, -1.3), (-5, 4, 4), (6, -4, 3), (7, 7, 7), (-7, 7, -7), (9, -8, 2)]
RAD = [.5, .7, .6, .9, .8, .55, .65, .75, .85, .5, .6, .7]
class M(Seq):
    def init(self, cfg):
        # kinds: 's' sphere, 'b' box, 'c' clump, None gone ; own[i]=clump id or None
        m = {'k': list('sssb'), 'own': [None] * 4, 'fresh': {}}
        if cfg == 'pair': m = {'k': list('ssssc'), 'own': [4, 4, None, None, None], 'fresh': {4: True}}
        if cfg == 'two': m = {'k': list('ssbsscc'), 'own': [5, 5, 5, 6, 6, None, None], 'fresh': {5: True, 6: True}}
        return m
    def members(self, m, c): return [i for i in range(len(m['k'])) if m['own'][i] == c]
    def enabled(self, m):
        ops = []; k = m['k']; n = len(k)
        plain = [i for i in range(n) if k[i] in ('s', 'b')]; cl = [i for i in range(n) if k[i] == 'c']
        if n < 9:
            for p in itertools.combinations(plain, 2): ops.append(['clump', list(p)])
            if len(plain) >= 3: ops.append(['clump', plain[:3]]); ops.append(['clump', plain[-1:-4:-1]])
        if n < 8: ops.append(['appc'])
        for c in cl:
            for i in plain + [x for x in cl if x != c]: ops.append(['add', [i], c])
            st = [i for i in plain if m['own'][i] is None]; mem = self.members(m, c)
            if st and mem: ops.append(['add', [st[0], mem[0]], c]); ops.append(['add', [mem[-1], st[-1]], c])
            for i in plain: ops.append(['rel', i, c])
            ops += [['era', c, False], ['era', c, True]]
        for i in plain: ops.append(['era', i, False])
        if cl: ops.append(['upd'])
        ops.append(['kick'])
        return ops
    def step(self, m, op):
        k = op[0]; K = m['k']; own = m['own']
        if k == 'clump':
            n = len(K); K.append('c'); own.append(None); old = set(own[i] for i in op[1]) - {None}
            for i in op[1]: own[i] = n
            m['fresh'][n] = True
            for c in old:
                if not self.members(m, c): K[c] = None
                else: m['fresh'][c] = True
            return n
        if k == 'appc':
            n = len(K); K += ['s', 's', 'c']; own += [n + 2, n + 2, None]; m['fresh'][n + 2] = True; return [n + 2, [n, n + 1]]
        if k == 'add':
            c = op[2]; any_ = False
            for i in op[1]:
                src = i if K[i] == 'c' else own[i]
                if src == c: continue
                any_ = True
                if src is None: own[i] = c
                else:
                    for j in self.members(m, src): own[j] = c
                    K[src] = None
            if any_: m['fresh'][c] = True
            return None
        if k == 'rel':
            i, c = op[1:]
            if own[i] == c and len(self.members(m, c)) > 2: own[i] = None; m['fresh'][c] = True
            return None
        if k == 'era':
            i = op[1]
            if K[i] == 'c':
                for j in self.members(m, i):
                    own[j] = None
                    if op[2]: K[j] = None
                K[i] = None
            else:
                c = own[i]; K[i] = None; own[i] = None
                if c is not None:
                    m['fresh'][c] = False
                    if not self.members(m, c): K[c] = None
            return True
        if k == 'upd':
            for c in range(len(K)):
                if K[c] == 'c': m['fresh'][c] = True
            return None
        if k == 'kick': return None
    def body(self, i, kind):
        if kind == 'b': return utils.box(POS[i], (.4, .7, .3), orientation=Quaternion((1, 2, 3), .7))
        return utils.sphere(POS[i], RAD[i])
    def reset(self, cfg):
        O.reset(); O.dt = 1e-2; O.engines = [ForceResetter(), NewtonIntegrator(damping=0)]
        kinds = {'free': 'sssb', 'pair': 'ssss', 'two': 'ssbss'}[cfg]
        for i, k in enumerate(kinds): O.bodies.append(self.body(i, k))
        if cfg == 'pair': O.bodies.clump([0, 1])
        if cfg == 'two': O.bodies.clump([0, 1, 2]); O.bodies.clump([3, 4])
        self.snap()
    def snap(self): self.pose = {b.id: (V(b.state.pos), Q(b.state.ori)) for b in O.bodies if not b.isClump}
    def do(self, op):
        k = op[0]; B = O.bodies; self.rigid = k != 'kick'
        self.snap()
        if k == 'clump': return B.clump(op[1])
        if k == 'appc':
            n = len(B); c, ids = B.appendClumped([self.body(n, 's'), self.body(n + 1, 's')]); return [c, list(ids)]
        if k == 'add': return B.addToClump(op[1], op[2])
        if k == 'rel': return B.releaseFromClump(op[1], op[2])
        if k == 'era': return B.erase(op[1], op[2])
        if k == 'upd': return B.updateClumpProperties()
        if k == 'kick':
            for b in B:
                if b.isClump or b.isStandalone:
                    b.state.vel = (.1 * b.id, .2, -.3); b.state.angVel = (.3, -.1 * b.id, .2); q = max(b.state.inertia); b.state.angMom = (3 * q, -q * b.id, 2 * q) # (the integrator takes one or the other)
            O.step(); return None
    def check(self, m):
        K = m['k']; own = m['own']; B = O.bodies
        if len(B) != len(K): return '%d slots, expected %d' % (len(B), len(K))
        for i, k in enumerate(K):
            b = B[i]
            if (b is None) != (k is None): return 'body %d is %s, expected %s' % (i, 'erased' if b is None else 'present', k)
            if k is None: continue
            if b.isClump != (k == 'c'): return 'isClump of %d is %s' % (i, b.isClump)
            if k == 'c':
                mem = self.members(m, i)
                got = sorted(b.shape.members.keys())
                if got != mem: return 'clump %d lists members %s, expected %s' % (i, got, mem)
                if b.bounded: return 'clump body %d is bounded' % i
            else:
                if b.isStandalone != (own[i] is None) or b.isClumpMember != (own[i] is not None): return 'body %d: standalone=%s member=%s, expected clump %s' % (i, b.isStandalone, b.isClumpMember, own[i])
                if b.clumpId != (-1 if own[i] is None else own[i]): return 'body %d has clump id %d, expected %s' % (i, b.clumpId, own[i])
                if self.rigid and i in self.pose:
                    if not vclose(V(b.state.pos), self.pose[i][0], ab=1e-9) or not vclose(Q(b.state.ori), self.pose[i][1], ab=1e-9): return 'world pose of body %d changed by a membership operation: %s -> %s' % (i, self.pose[i], (V(b.state.pos), Q(b.state.ori)))
        for c, k in enumerate(K):
            if k != 'c': continue
            cb = B[c]; s = cb.state; mem = cb.shape.members
            for i in mem:
                rp, ro = mem[i]; st = B[i].state
                if not vclose(V(st.pos), V(s.pos + s.ori * rp), ab=1e-8): return 'member %d of clump %d is at %s, clump pose says %s' % (i, c, V(st.pos), V(s.pos + s.ori * rp))
                if not self.rigid:
                    if not vclose(V(st.vel), V(s.vel + s.angVel.cross(st.pos - s.pos)), ab=1e-8) or not vclose(V(st.angVel), V(s.angVel), ab=1e-9): return 'member %d does not move rigidly with clump %d' % (i, c)
                    o = s.ori * ro
                    d = abs(sum(a * b for a, b in zip(Q(o), Q(st.ori))))
                    if abs(d - 1) > 1e-7: return 'member %d is not oriented rigidly with clump %d' % (i, c)
            if m['fresh'].get(c) and len(mem) >= 1:
                Ms = sum(B[i].state.mass for i in mem); cen = [sum(B[i].state.mass * B[i].state.pos[a] for i in mem) / Ms for a in range(3)]
                if not close(s.mass, Ms, 1e-9): return 'clump %d has mass %g, members weigh %g' % (c, s.mass, Ms)
                if not vclose(V(s.pos), cen, ab=1e-8): return 'clump %d is at %s, centroid is %s' % (c, V(s.pos), cen)
                T = Matrix3.Zero
                for i in mem:
                    st = B[i].state; Rm = st.ori.toRotationMatrix(); I = Matrix3(st.inertia[0], 0, 0, 0, st.inertia[1], 0, 0, 0, st.inertia[2])
                    r = st.pos - s.pos
                    T += Rm * I * Rm.transpose() + st.mass * (r.dot(r) * Matrix3.Identity - r.outer(r))
                Rc = s.ori.toRotationMatrix(); Ic = Matrix3(s.inertia[0], 0, 0, 0, s.inertia[1], 0, 0, 0, s.inertia[2])
                D = Rc * Ic * Rc.transpose()
                err = max(abs(D[a, b] - T[a, b]) for a in range(3) for b in range(3)); sc = max(abs(T[a, a]) for a in range(3))
                if err > 1e-7 * sc: return 'clump %d: principal inertia and orientation do not describe the aggregate (error %g of %g)' % (c, err, sc)
    def key(self, m): return (tuple(m['k']), tuple(m['own']), tuple(sorted(m['fresh'].items())))
    def outcome(self, m): return repr(self.key(m)[:2])
def jobs(tier): return prefixes(M(), 2, ['free', 'pair', 'two'])
def setup():
    global O, utils, Quaternion, Matrix3, ForceResetter, NewtonIntegrator
    from yade import utils
    from minieigen import Quaternion, Matrix3
    from yade.wrapper import ForceResetter, NewtonIntegrator
    O = load()
def run(job, ctx): M().run(job, ctx, DEPTH[ctx.tier])
def replay(case, ctx): M().replay_path(ctx, case[0], case[1])
