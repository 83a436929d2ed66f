"""Small helpers shared by the harnesses (imported inside worker processes, where yade is available)."""
import math, sys
def load():
    import yade, yade.wrapper, yade.utils
    from yade import Omega
    return Omega()
def V(v): return tuple(float(x) for x in v)
def Q(q): return tuple(float(q[i]) for i in range(4))
def close(a, b, rel=1e-9, ab=0.0): return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))
def vclose(a, b, rel=1e-9, ab=0.0):
    s = max([abs(x) for x in a] + [abs(x) for x in b] + [0.0])
    return all(abs(x - y) <= max(ab, rel * s) for x, y in zip(a, b))
