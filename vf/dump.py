"""Complete observable state of a scene, as nested plain data, and its comparison."""
def attrs(x):
    try: return x.dict()
    except TypeError: pass   # an attribute of a type which python does not know
    d = {}
    for k in dir(type(x)):
        if k[0] == '_' or not isinstance(getattr(type(x), k), property): continue
        try: d[k] = getattr(x, k)
        except TypeError: pass
    return d
def ser(x, skip=(), depth=0):
    from yade import wrapper as w
    if isinstance(x, w.Serializable):
        if depth > 6: return x.__class__.__name__
        d = {'_': x.__class__.__name__}
        for k, v in attrs(x).items():
            if k in skip or (x.__class__.__name__, k) in skip: continue
            d[k] = ser(v, skip, depth + 1)
        return d
    if isinstance(x, (list, tuple)): return [ser(v, skip, depth + 1) for v in x]
    if isinstance(x, dict): return {str(k): ser(v, skip, depth + 1) for k, v in x.items()}
    if isinstance(x, (bool, int, str, type(None), float)): return x
    n = x.__class__.__name__
    if n in ('Vector3', 'Vector2', 'Vector6', 'VectorX', 'Vector3i', 'Vector2i', 'Vector6i'): return [x[i] for i in range(len(x))]
    if n.startswith('Matrix'): return [x[i, j] for i in range(x.rows()) for j in range(x.cols())]
    if n == 'Quaternion': return [x[i] for i in range(4)]
    try: return [ser(v, skip, depth + 1) for v in x]
    except TypeError: return n
ENG_SKIP = ('realLast', 'timingDeltas', 'timingInfo', 'nsec', 'execTime', 'execCount')
def scene(O, skip=()):
    skip = tuple(skip) + ENG_SKIP
    d = {'iter': O.iter, 'time': O.time, 'dt': O.dt, 'periodic': O.periodic, 'stopAtIter': O.stopAtIter, 'stopAtTime': O.stopAtTime, 'trackEnergy': O.trackEnergy}
    d['cell'] = ser(O.cell, skip) if O.periodic else None
    d['tags'] = {k: O.tags[k] for k in O.tags.keys() if k not in ('isoTime', 'd.id', 'id.d', 'id')}
    d['materials'] = [ser(m, skip) for m in O.materials]
    bs = []
    for i in range(len(O.bodies)):
        b = O.bodies[i]
        if b is None: bs.append(None); continue
        e = ser(b, skip + ('bound', 'intrs'))
        e['dyn'] = [b.dynamic, b.isClump, b.isClumpMember, b.isStandalone, b.aspherical, b.bounded, b.state.blockedDOFs]
        e['shared'] = [j for j, m in enumerate(O.materials) if b.mat is not None and m == b.mat]
        bs.append(e)
    d['bodies'] = bs
    d['intrs'] = {'%d+%d' % (min(x.id1, x.id2), max(x.id1, x.id2)): ser(x, skip + ('linIx', 'iterBorn')) for x in O.interactions}
    d['engines'] = [ser(e, skip) for e in O.engines]
    if O.trackEnergy: d['energy'] = dict(O.energy.items())
    return d
def diff(a, b, rel=1e-9, ab=1e-12, path=''):
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)): return '%s: %r / %r' % (path, a, b)
        if a == b or (a != a and b != b) or abs(a - b) <= max(ab, rel * max(abs(a), abs(b))): return None
        return '%s: %r / %r' % (path, a, b)
    if type(a) != type(b): return '%s: %r / %r' % (path, a, b)
    if isinstance(a, dict):
        if a.keys() != b.keys(): return '%s: keys %s / %s' % (path, sorted(set(a) - set(b))[:5], sorted(set(b) - set(a))[:5])
        for k in a:
            r = diff(a[k], b[k], rel, ab, path + '.' + str(k))
            if r: return r
        return None
    if isinstance(a, list):
        if len(a) != len(b): return '%s: lengths %d / %d' % (path, len(a), len(b))
        if a and all(isinstance(x, float) for x in a) and all(isinstance(x, float) for x in b):
            s = max([abs(x) for x in a + b if x == x and abs(x) != float('inf')] + [0])
            for i, (x, y) in enumerate(zip(a, b)):
                if not (x == y or (x != x and y != y) or abs(x - y) <= max(ab, rel * s)): return '%s: %r / %r' % (path, a, b)
            return None
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, rel, ab, '%s[%d]' % (path, i))
            if r: return r
        return None
    return None if a == b else '%s: %r / %r' % (path, a, b)
