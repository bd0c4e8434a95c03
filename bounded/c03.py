from core import contract
import numpy as np, orc
from eoxmagmod import _pymm

LATS = [90., -90., 0., 89.999, -89.9, 1e-8, 89.9999999, -89.99999999, 89.98, -89.98, 45., 60., -30., 88., -80.]
@contract("C03", 420)
def legendre_definition(c):
    """p[n(n+1)/2+m] and dp are the Schmidt functions and their latitude derivatives"""
    r = c.rng
    n = int(r.choice([0, 1, 2, 3, 4, 5, 8, 10, 12, 13, 14, 15, 16, 17, 18, 20, 30])) if c.i % 10 else int(r.integers(31, 90))
    lat = float(r.choice(LATS)) if r.random() < .4 else float(r.uniform(-90, 90))
    c.note(degree=n, latitude=lat)
    p, d = _pymm.legendre(lat, n)
    c.require(p.shape == d.shape == (orc.nmax_size(n),), "shape")
    P, D = orc.schmidt(n, lat)
    # the cosine of latitudes close to the poles carries the rounding of the degree->radian conversion
    cl = max(abs(float(np.cos(np.radians(lat)))), 1e-16)
    amp = 1 + 1e-3 / cl if lat not in (90., -90.) else 1.0
    tol = 2e-12 * min(amp, 1e6) * (1 + n / 20.)
    deg = np.repeat(np.arange(n + 1), np.arange(1, n + 2))
    for nm, g, w, s in (("p", p, P, 1.0), ("dp", d, D, deg + 1.0)):
        err = np.abs(np.asarray(g - w, dtype=float)) / s
        k = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
        c.require(np.isfinite(g).all() and err[k] < tol, "legendre %s of degree %d at latitude %r: entry %d (got %r expected %r)" % (nm, n, lat, k, float(g[k]), float(w[k])))
    if n > 0:
        j = int(r.integers(0, n))
        p2, d2 = _pymm.legendre(lat, j)
        s = orc.nmax_size(j)
        # (the two algorithms may differ by rounding where they switch)
        c.close(p2, p[:s], "leading terms independent of the degree", rtol=0, atol=2 * tol)
        c.close(d2, d[:s], "leading derivatives independent of the degree", rtol=0, atol=2 * tol * (n + 1))

@contract("C03", 12)
def legendre_high(c):
    """high degrees: addition theorem sum_m P_nm^2 = 1, and pointwise against extended precision"""
    r = c.rng
    n = [133, 200, 400, 90, 134, 250, 720, 120, 60, 300, 150, 180][c.i % 12]
    lat = float(r.uniform(-89, 89)) if c.i % 3 else float(r.choice([90., -90., 0., 10., 75.]))
    c.note(degree=n, latitude=lat)
    p, d = _pymm.legendre(lat, n)
    deg = np.repeat(np.arange(n + 1), np.arange(1, n + 2))
    c.require(np.isfinite(p).all() and np.isfinite(d).all(), "non-finite value")
    c.close(np.bincount(deg, p * p), np.ones(n + 1), "addition theorem", rtol=0, atol=1e-9)
    dd = np.bincount(deg, d * d)
    # sum_m (dP/dlat)^2 = n(n+1)/2
    k = np.arange(n + 1)
    c.close(dd, k * (k + 1) / 2., "addition theorem of the derivatives", rtol=1e-8, atol=1e-9)
    if n <= 200:
        P, D = orc.schmidt(n, lat)
        c.close(p, P, "values", rtol=0, atol=1e-9)
        c.close(d / (deg + 1), D / (deg + 1), "derivatives", rtol=0, atol=1e-9)

@contract("C03", 8)
def legendre_extreme(c):
    """the highest degrees of the algorithm: finite everywhere, addition theorems of the functions and of the derivatives"""
    r = c.rng
    n = [1100, 1300, 2000, 2700][c.i // 2 % 4]
    lat = [90., -90., 89.9999999999, -89.99999999999][(c.i // 2 + c.i // 8) % 4] if c.i % 2 == 0 else float(r.uniform(-89.9, 89.9))
    c.note(degree=n, latitude=lat)
    p, d = _pymm.legendre(lat, n)
    c.require(np.isfinite(p).all() and np.isfinite(d).all(), "non-finite value")
    deg = np.repeat(np.arange(n + 1), np.arange(1, n + 2)); k = np.arange(n + 1)
    c.close(np.bincount(deg, p * p), np.ones(n + 1), "addition theorem", rtol=0, atol=1e-8)
    c.close(np.bincount(deg, d * d), k * (k + 1) / 2., "addition theorem of the derivatives", rtol=1e-7, atol=1e-8)

@contract("C03", 40)
def legendre_arrays(c):
    """array latitudes are evaluated element by element"""
    r = c.rng
    n = int(r.integers(0, 20)); shape = [(3,), (2, 3), (1,), (0,), (2, 1, 2)][c.i % 5]
    lat = r.choice(LATS + list(r.uniform(-90, 90, 10)), shape)
    p, d = _pymm.legendre(orc.odd_layout(r, lat), n)
    c.require(p.shape == d.shape == (*shape, orc.nmax_size(n)), "shape")
    for k in np.ndindex(shape):
        p1, d1 = _pymm.legendre(lat[k], n)
        c.same(p[k], p1, "element", latitude=lat, degree=n, k=k); c.same(d[k], d1, "element", latitude=lat, degree=n, k=k)
    c.raises(lambda: _pymm.legendre(10., -1 - c.i), "negative degree accepted")
