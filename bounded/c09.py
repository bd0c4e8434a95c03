from core import contract
import numpy as np, orc
from eoxmagmod import _pymm, sheval
from c07 import nm_list, kws, tup, points
fourier2d, sheval2dfs = _pymm.fourier2d, _pymm.sheval2dfs

def series(ab, t1, t2, d1, d2, s1, s2):
    L = np.longdouble
    i = np.arange(d1, d1 + ab.shape[0]).astype(L)[:, None]; j = np.arange(d2, d2 + ab.shape[1]).astype(L)[None, :]
    ph = i * L(s1) * L(t1) + j * L(s2) * L(t2)
    return (ab[..., 0] * np.cos(ph) + ab[..., 1] * np.sin(ph)).sum()

def rng_range(r):
    k = int(r.integers(5))
    return [(0, 3), (-4, 4), (-3, 2), (2, 3), (-2, 5)][k] if r.random() < .5 else (int(r.integers(-6, 7)), int(r.integers(1, 8)))

@contract("C09", 900)
def fourier(c):
    """fourier2d equals the defining double sum for any index range"""
    r = c.rng
    (d1, n1), (d2, n2) = rng_range(r), rng_range(r)
    shape = [(), (2,), (2, 3), (0,)][int(r.integers(4))]; cs = [(), (1,), (3,), (2, 2)][int(r.integers(4))]
    t1, t2 = r.uniform(-2, 2, shape), r.uniform(-30, 30, shape); s1, s2 = float(r.normal() * 6), float(r.normal())
    ab = r.normal(size=(*cs, n1, n2, 2))
    c.note(time1=t1, time2=t2, coeff0=ab, min_degree1=d1, min_degree2=d2, scale1=s1, scale2=s2)
    got = fourier2d(t1, t2, orc.odd_layout(r, ab), d1, d2, s1, s2)
    c.require(got.shape == (*shape, *cs), "shape %s" % (got.shape,))
    for k in np.ndindex(shape):
        for j in np.ndindex(cs):
            c.close(got[k + j], series(ab[j], t1[k], t2[k], d1, d2, s1, s2), "2D Fourier series", rtol=0, atol=1e-11 * n1 * n2 * 10)
    if c.i % 5 == 0 and shape == ():
        c.close(fourier2d(t1, t2, ab), fourier2d(t1, t2, ab, 0, 0, 1.0, 1.0), "defaults", rtol=0)

@contract("C09", 400)
def model(c):
    """sheval2dfs equals sheval of the coefficient matrix evaluated by the series"""
    r = c.rng; kw = kws(r); n = int(r.choice([1, 2, 4]))
    nm = nm_list(r, n); (d1, n1), (d2, n2) = rng_range(r), rng_range(r); s1, s2 = 6.28, 0.26
    ab = r.normal(size=(len(nm), n1, n2, 2)) * 10
    t1, t2 = r.uniform(0, 1, 4)[[0, 1, 1, 2]], r.uniform(0, 24, 4)[[0, 0, 1, 1]]
    x = orc.rand_point(r, kw["coord_type_in"], 6000., 8000.)
    c.note(t1=t1, t2=t2, x=x, ab=ab, nm=nm, d=(d1, d2), **kw)
    res = tup(sheval2dfs(t1, t2, x, (ab, nm, d1, d2, s1, s2), **kw))
    for k in range(4):
        m = np.zeros((orc.nmax_size(int(nm[:, 0].max())), 2))
        for (a, b), q in zip(nm, ab): m[orc.idx(a, abs(b)), int(b < 0)] = series(q, t1[k], t2[k], d1, d2, s1, s2)
        for a, b in zip(res, tup(sheval(x, m, **kw))):
            s = np.abs(b).max() + np.abs(ab).sum(axis=(1, 2, 3)).max() * (1e4 if b.ndim == 0 else 10)
            c.close(a[k], b, "sheval2dfs", rtol=1e-9, atol=1e-9 * s)
