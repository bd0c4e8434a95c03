from core import contract
import numpy as np
from eoxmagmod import _pymm

def nodes(c):
    r = c.rng
    n = int(r.choice([1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 33, 100, 1000])) if r.random() < .8 else int(r.integers(1, 300))
    k = r.integers(0, 4)
    if k == 0: v = np.sort(r.integers(-3, 4, n).astype(float))
    elif k == 1: v = np.sort(r.normal(size=n))
    elif k == 2: v = np.cumsum(r.random(n)) * 10.0 ** r.integers(-5, 6)
    else: v = np.arange(n, dtype=float)
    if r.random() < .15: v[0] = -np.inf
    if r.random() < .1 and n > 1: v[-1] = np.inf
    return v

def oracle(v, x, side):
    if np.isnan(x): return -1
    return int((v <= x).sum()) - 1 if side == _pymm.BISECT_SIDE_RIGHT else int((v < x).sum()) - 1

@contract("C01", 1500)
def bisect_interval(c):
    """index satisfies node[i] <= x < node[i+1] / node[i] < x <= node[i+1]; -1 below and for NaN; last beyond"""
    v = nodes(c); r = c.rng
    xs = np.concatenate([r.choice(v, 5), r.choice(v, 3) + 1e-9, r.uniform(v[np.isfinite(v)].min() - 1 if np.isfinite(v).any() else -1, (v[np.isfinite(v)].max() if np.isfinite(v).any() else 0) + 1, 8),
                         np.nextafter(r.choice(v, 3), np.inf), np.nextafter(r.choice(v, 3), -np.inf), [np.nan, np.inf, -np.inf, 0.0, -0.0]])
    shape = [(xs.size,), (xs.size, 1), (1, xs.size, 1)][c.i % 3]
    for side in (_pymm.BISECT_SIDE_RIGHT, _pymm.BISECT_SIDE_LEFT):
        c.note(nodes=v, x=xs, side=side)
        got = _pymm.bisect(v, xs.reshape(shape), side)
        c.require(got.shape == shape, "shape of the result")
        want = np.array([oracle(v, x, side) for x in xs]).reshape(shape)
        c.same(got, want, "bisect side %d" % side)
        k = int(r.integers(xs.size))
        c.same(_pymm.bisect(v, xs[k], side), want.ravel()[k], "bisect of a scalar")
    if c.i < 3:
        c.same(_pymm.bisect(v, xs), [oracle(v, x, _pymm.BISECT_SIDE_LEFT) for x in xs], "default side")

@contract("C01", 200)
def bisect_layout(c):
    """strided / multi-dimensional values are resolved element by element; strided nodes"""
    v = nodes(c); r = c.rng
    big = np.repeat(v, 3)
    xs = r.choice(v, (3, 4)) + r.choice([0, 0.5, -0.5, np.nan], (3, 4))
    for side in (0, 1):
        want = [[oracle(v, x, side) for x in row] for row in xs]
        c.note(nodes=v, x=xs, side=side)
        c.same(_pymm.bisect(big[::3], xs, side), want, "strided nodes")
        c.same(_pymm.bisect(v, np.asfortranarray(xs), side), want, "Fortran order")
        c.same(_pymm.bisect(v, xs.T, side), np.array(want).T, "transposed")
        c.same(_pymm.bisect(v, xs[::-1, ::2], side), np.array(want)[::-1, ::2], "strided values")
