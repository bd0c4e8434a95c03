from core import contract
import numpy as np, itertools
from eoxmagmod.magnetic_model.util import get_nonoverlapping_intervals as NO, aggregate_intersected_intervals as AG
INF = np.inf

def rand_intervals(r, n, grid=None):
    out = []
    for k in range(n):
        if grid is not None: a, b = (float(grid[q]) for q in r.integers(0, len(grid), 2))
        else: a, b = sorted(r.normal(size=2) * 10) if r.random() < .9 else r.normal(size=2)
        if r.random() < .1: a = -INF
        if r.random() < .1: b = INF
        out.append(((float(a), float(b)), "o%d" % k))
    return out

def probes(*lists):
    b = sorted({x for l in lists for (s, e), _ in l for x in (s, e) if np.isfinite(x)})
    if not b: return [0.]
    return [b[0] - 1.] + [(p + q) / 2 for p, q in zip(b, b[1:])] + [b[-1] + 1.]

def owner(l, t): return next((o for (s, e), o in l if s < t < e), None)

def check_no(c, l):
    c.note(intervals=l)
    keep = list(l); res = NO(l)
    c.require(list(l) == keep, "input modified")
    for (s, e), o in res: c.require(s < e, "empty interval", res=res)
    for ((s, e), _), ((s2, e2), _) in zip(res, res[1:]): c.require(e <= s2, "not ascending or overlapping", res=res)
    bounds = {x for (s, e), _ in l for x in (s, e)}
    for (s, e), o in res: c.require(s in bounds and e in bounds, "bounds", res=res)
    for t in probes(l): c.require(owner(res, t) == owner(l, t), "owner of %r is %r expected %r" % (t, owner(res, t), owner(l, t)), res=res)

@contract("C14", 4000)
def nonoverlapping(c):
    """ascending disjoint, union covered, owned by the first input interval"""
    r = c.rng; check_no(c, rand_intervals(r, int(r.integers(0, 9)), np.arange(6.) if r.random() < .6 else None))

@contract("C14", 40)
def nonoverlapping_exhaustive(c):
    """all sequences of up to 3 intervals on the grid 0..3 and infinities (split by the case number)"""
    pts = [-INF, 0., 1., 2., INF]
    iv = [(a, b) for a in pts for b in pts if a < b] + [(1., 1.), (2., 1.)]
    for k, comb in enumerate(itertools.product(iv, repeat=3)):
        if k % 40 == c.i % 40: check_no(c, [(x, "o%d" % j) for j, x in enumerate(comb)])

def check_ag(c, l0, l1):
    c.note(a=l0, b=l1)
    res = AG(l1, l0)
    for t in probes(l0 or [], l1):
        got = [o for (s, e), o in res if s < t < e]
        w0 = [o for (s, e), o in l0 if s < t < e] if l0 is not None else [[]]
        w1 = [o for (s, e), o in l1 if s < t < e]
        want = [[*w0[0], w1[0]]] if w0 and w1 else []
        c.require(got == want, "objects at %r: %r expected %r" % (t, got, want), res=res)
    for ((s, e), _), ((s2, e2), _) in zip(res, res[1:]): c.require(e <= s2, "not ascending", res=res)
    for (s, e), o in res: c.require(s <= e, "empty", res=res)
    # each non-empty intersection exactly once
    if l0 is not None:
        want = sorted((max(s, p), min(e, q)) for (s, e), _ in l0 for (p, q), _ in l1 if max(s, p) < min(e, q))
        c.require(sorted((s, e) for (s, e), _ in res if s < e) == want, "intersections", res=res)

@contract("C14", 4000)
def aggregation(c):
    """aggregation gives the non-empty intersections with the objects of both sides in order"""
    r = c.rng; g = np.arange(7.) if r.random() < .7 else None
    a = NO(rand_intervals(r, int(r.integers(0, 6)), g)); b = NO(rand_intervals(r, int(r.integers(0, 6)), g))
    l0 = None if c.i % 7 == 0 else [(i, [o + "a"] + (["x"] if r.random() < .3 else [])) for i, o in a]
    check_ag(c, l0, b)
