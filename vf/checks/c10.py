"""C10: every attribute of every registered class, for a set of values of its type, survives each storage format."""
import itertools, json, math, os, re
from vf.yd import *
from vf import dump
LEVEL = 'model_checking'
FMT = ['m.xml', 'm.xml.bz2', 'm.xml.gz', 'm.yade', 'm.yade.gz', 'm.yade.bz2', ':memory:', 'pickle', 'ctor']
BOUNDS = {'quick': 'every registered class x every attribute x every value of the per-type set (reals with 1 ulp significance, nan, infinities; strings with markup, newlines, non-ascii; empty and multi-element sequences; nested objects) x 9 ways of storing (6 file formats, memory, pickle, keyword constructor)',
          'thorough': 'as quick, and every pair of attributes of one class set together (first non-default value, and last) in 3 formats'}
RULE = 'a trace is one (class, attribute, value, way); the stored object, read back, must have all attributes equal (bitwise for numbers)'
ASSUMPTIONS = ['attributes which were not saved by design when this check was written (noSave) are listed in vf/data/nosave.json', 'values rejected when set are skipped', 'classes without python access to their attributes are compared on the accessible ones']
HANG = 240
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TINY = 1 + 2.**-52
def vals(t, o):
    t = t.replace('std::', '').replace('boost::', '').strip()
    R = [0., 1.5, -1 / 3., .1, 1e-300, 1.7976931348623157e308, float('inf'), -float('inf'), float('nan'), TINY]
    I = [0, 1, -1, 7, 2147483647]
    Sx = ['', 'a b', '<&>"\'x;', ' lead and trail ', 'l1\nl2\tz', 'čž€']
    if t in ('Real', 'double'): return R
    if t in ('int', 'Body::id_t', 'long', 'short int', 'unsigned int', 'size_t', 'mask_t'):
        return [v for v in I if not (v < 0 and t in ('unsigned int', 'size_t')) and not (v > 32000 and 'short' in t)] + ([2**40 + 1] if t == 'long' else [])
    if t == 'bool': return [True, False]
    if t == 'string': return Sx
    if t == 'Vector3r': return [ME.Vector3(1, .1, -1 / 3.), ME.Vector3(float('inf'), 0, TINY)]
    if t == 'Vector2r': return [ME.Vector2(.1, -1 / 3.)]
    if t == 'Vector6r': return [ME.Vector6(.1, 2, 3, 4, 5, -1 / 3.)]
    if t == 'Vector6i': return [ME.Vector6i(1, -2, 3, 4, 5, 6)]
    if t == 'Vector3i': return [ME.Vector3i(1, -2, 3)]
    if t == 'Vector2i': return [ME.Vector2i(1, -2)]
    if t == 'Matrix3r': return [ME.Matrix3(.1, 2, 3, 4, 5, 6, 7, 8, -1 / 3.)]
    if t == 'Quaternionr': return [ME.Quaternion(.5, .5, .5, .5), ME.Quaternion(ME.Vector3(0, 0, 1), .1)]
    if t == 'Se3r': return [(ME.Vector3(.1, 2, 3), ME.Quaternion(.5, -.5, .5, .5))]
    m = re.match(r'vector<(.*)>$', t)
    if m:
        e = m.group(1).strip()
        if e.startswith('shared_ptr'): return []
        x = vals(e, o)[:6]
        x = [v for v in x if not (isinstance(v, float) and v != v)]
        return [[], x[1:2] or x[:1], x + x] if x else []
    if t == 'shared_ptr<MatchMaker>': return [w.MatchMaker(algo='avg'), w.MatchMaker(algo='val', val=.3), w.MatchMaker(matches=((0, 1, .1), (2, 3, 1 / 3.)))]
    if t == 'shared_ptr<Body>': return [w.Body(mask=5, groupMask=5) if False else w.Body()]
    return []
def attrs(C):
    out = {}
    for c in C.__mro__:
        for k, p in c.__dict__.items():
            d = getattr(p, '__doc__', None) or ''
            if ':yattrtype:' in d and k not in out and '|ystatic|' not in d:
                out[k] = (re.search(r':yattrtype:`(.*?)`', d).group(1), c.__name__)
    return out
def observe(o):
    d = {}
    for k in attrs(o.__class__):
        try: d[k] = dump.ser(getattr(o, k))
        except TypeError: d[k] = '?'   # no python representation
    return d
def same(a, b):
    if isinstance(a, float) and isinstance(b, float): return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b
def make(cn, sets):
    o = getattr(w, cn)()
    for k, v in sets: o.updateAttrs({k: v})
    return o
def roundtrip(objs, f):
    if f == 'pickle': return [pickle.loads(pickle.dumps(o)) for o in objs]
    if f == 'ctor':
        return [o.__class__(**dict(o.dict())) for o in objs]
    O.reset(); O.miscParams = objs
    O.save(f, quiet=True)
    if f[0] != ':': O.reset(); O.miscParams = []
    O.load(f, quiet=True)
    return list(O.miscParams)
def variants(cn, pairs):
    C = getattr(w, cn); at = attrs(C); out = [[]]
    dom = {k: vals(t, None) for k, (t, c) in at.items()}
    for k in at:
        for i in range(len(dom[k])): out.append([(k, i)])
    if dom: out.append([(k, min(1, len(v) - 1)) for k, v in dom.items() if v])
    if pairs:
        for a, b in itertools.combinations([k for k in at if dom[k]], 2):
            out.append([(a, min(1, len(dom[a]) - 1)), (b, min(1, len(dom[b]) - 1))])
    return out, dom
def check(ctx, cn, f, only=None, pairs=False):
    ctx.case([cn, f, only]); vs, dom = variants(cn, pairs)
    objs = []; sets = []
    for s in vs if only is None else [only]:
        s = [tuple(x) for x in s]
        try: o = make(cn, [(k, dom[k][i]) for k, i in s])
        except Exception: ctx.add('rejected'); continue
        objs.append(o); sets.append(s)
    if not objs: return
    if f in ('pickle', 'ctor'):
        try:
            objs[0].dict()
            if f == 'pickle' and cn in NODICT: pickle.dumps(objs[0])
        except TypeError as e:
            if cn in NODICT: ctx.known_finding('%s.dict() and pickling raise TypeError (an attribute has no python conversion)' % cn); return
            ctx.violation('%s.dict() raises %s' % (cn, e), [cn, f, sets[0]]); return
    before = [observe(o) for o in objs]
    for s, b in zip(sets, before):     # what was set is what is read
        for k, i in s:
            e = dump.ser(dom[k][i])
            if len(s) == 1 and not same(b[k], e) and b[k] != '?' and cn + '.' + k not in NORM and not (isinstance(b[k], list) and same(list(e), b[k])):
                ctx.violation('%s.%s set to %r reads %r' % (cn, k, e, b[k]), [cn, f, s]); return
    try: back = roundtrip(objs, f)
    except Exception as e:
        if len(objs) > 1:      # find the one
            n = len(ctx.viol)
            for s in sets: check(ctx, cn, f, s)
            if len(ctx.viol) > n: return
        ctx.violation('%s cannot be stored and read back (%s): %s: %s' % (cn, f, type(e).__name__, e), [cn, f, sets[0] if len(sets) == 1 else only]); return
    if len(back) != len(objs): ctx.violation('%d objects stored, %d read back (%s)' % (len(objs), len(back), f)); return
    at = attrs(getattr(w, cn))
    for s, b, o in zip(sets, before, back):
        if o.__class__.__name__ != cn: ctx.violation('%s stored, %s read back (%s)' % (cn, o.__class__.__name__, f), [cn, f, s]); return
        a = observe(o)
        for k in b:
            if f not in ('pickle', 'ctor') and at[k][1] + '.' + k in NOSAVE: continue
            if cn + '.' + k in NORM:    # normalised when set or loaded: only a value which was set must come back, up to rounding
                if not any(x == k for x, i in s) or not dump.diff(a[k], b[k], 1e-14): continue
            if not same(a[k], b[k]): ctx.violation('%s%s: attribute %s was %r, after %s it is %r' % (cn, [(x, dump.ser(dom[x][i])) for x, i in s], k, b[k], f, a[k]), [cn, f, s]); return
        ctx.trace(len(b), '%s' % cn)
    ctx.state((cn, f))
def classes():
    S = w.Serializable
    return [k for k in sorted(dir(w)) if isinstance(getattr(w, k), type) and issubclass(getattr(w, k), S)]
def jobs(tier): return list(range(32))
def setup():
    global O, w, ME, pickle, NOSAVE, NORM, NODICT
    import pickle, minieigen as ME, yade.wrapper as w
    O = load()
    d = json.load(open(B + '/data/nosave.json')); NOSAVE = set(d['nosave']); NORM = set(d['normalized']); NODICT = set(d['nodict'])
def run(job, ctx):
    cl = classes()
    for cn in cl[job::32]:
        if cn in ('Scene', 'Serializable'): continue
        for f in FMT: check(ctx, cn, f)
        if ctx.tier == 'thorough':
            for f in ('m.xml', 'm.yade', 'pickle'): check(ctx, cn, f, pairs=True)
        ctx.sample(cn)
def replay(case, ctx): check(ctx, *case)
