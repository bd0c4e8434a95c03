from core import contract
import numpy as np, orc
from eoxmagmod import _pymm
from eoxmagmod._pymm import legendre, loncossin, relradpow, spharpot, sphargrd

def series(lat, lon, rad, n, internal):
    p, d = legendre(lat, n)
    return p, d, relradpow(rad, n, is_internal=internal), loncossin(lon, n, False)

def scale(coef, rad, internal, n):
    k = np.repeat(np.arange(n + 1), np.arange(1, n + 2))
    x = 6371.2 / rad
    rr = x ** (k + 2.) if internal else x ** (1. - k)
    return float((np.abs(coef).sum(axis=1) * rr * (k + 1)).sum()) + 1e-300

@contract("C05", 500)
def sums(c):
    """potential and gradient equal the defining sums; truncation by degree"""
    r = c.rng
    n = int(r.choice([0, 1, 2, 3, 4, 6, 9, 14, 17, 22])); internal = bool(c.i % 2)
    lat, lon, rad = orc.rand_point(r, orc.SPH, 5000., 9000.)
    coef = orc.rand_coef(r, n)
    deg = int(r.choice([-1, n, max(n - 1, 0), 0, n + 3]))
    c.note(latitude=lat, longitude=lon, radius=rad, coef=coef, is_internal=internal, degree=deg)
    p, d, rr, cs = series(lat, lon, rad, n, internal)
    V, N, E, U = orc.sh_eval(coef, lat, lon, rad, internal, deg if deg >= 0 else None)
    s = scale(coef, rad, internal, n)
    # sin(lat) quantisation close to the poles limits the accuracy of the horizontal components
    tol = s * (1e-11 + min(1e-8, 1e-15 / max(1e-9, np.cos(np.radians(lat)))))  * (1 + n)
    c.close(spharpot(rad, coef, p, rr, cs, degree=deg), V, "potential", rtol=0, atol=tol * rad)
    g = sphargrd(lat, coef, p, d, rr, cs, is_internal=internal, degree=deg)
    c.require(g.shape == (3,), "shape")
    for k, w in enumerate((N, E, U)):
        c.close(g[k], w, "gradient component %d" % k, rtol=0, atol=tol * (1 if abs(lat) < 89.99 or k == 2 else 1e2))

@contract("C05", 250)
def sums_arbitrary_series(c):
    """off the poles the sums are linear combinations of whatever series are supplied; linear in the coefficients"""
    r = c.rng
    n = int(r.choice([1, 2, 3, 5, 8])); internal = bool(c.i % 2)
    size = orc.nmax_size(n)
    lat = float(r.uniform(-89, 89)); rad = float(r.uniform(1, 10))
    coef, coef2 = r.normal(size=(size, 2)), r.normal(size=(size, 2))
    p, d = r.normal(size=size), r.normal(size=size); rr = r.normal(size=n + 1); cs = r.normal(size=(n + 1, 2)); cs[0] = 1, 0
    c.note(latitude=lat, radius=rad, coef=coef, leg_p=p, leg_dp=d, rrp=rr, lcs=cs, is_internal=internal)
    V = N = E = U = 0.0
    for i in range(n + 1):
        for m in range(i + 1):
            k = orc.idx(i, m); h = coef[k, 1] if m else 0.0
            t = coef[k, 0] * cs[m, 0] + h * cs[m, 1]; u = -coef[k, 0] * cs[m, 1] + h * cs[m, 0]
            V += rr[i] * t * p[k]; N += rr[i] * t * (d[k] if i else 0); E += rr[i] * m * u * p[k] / np.cos(np.radians(lat)); U += rr[i] * t * p[k] * (-(i + 1) if internal else i)
    # (P_00 = 1 is not read)
    V += rr[0] * coef[0, 0] * (1 - p[0]); U += rr[0] * coef[0, 0] * (1 - p[0]) * (-1 if internal else 0)
    at = 1e-11 * n * n * (np.abs(coef).max() * 20 / np.cos(np.radians(lat)))
    c.close(spharpot(rad, coef, p, rr, cs), rad * V, "potential", atol=at * 10)
    g = sphargrd(lat, coef, p, d, rr, cs, is_internal=internal)
    c.close(g, [N, E, U], "gradient", atol=at)
    a = float(r.normal())
    g2 = sphargrd(lat, coef2, p, d, rr, cs, is_internal=internal); g3 = sphargrd(lat, coef + a * coef2, p, d, rr, cs, is_internal=internal)
    c.close(g3, g + a * g2, "linearity", atol=at * 4)
    c.close(sphargrd(lat, 0 * coef, p, d, rr, cs, is_internal=internal), [0, 0, 0], "zero coefficients", atol=0)

@contract("C05", 150)
def modes_agree(c):
    """potential, gradient and combined modes give the same values"""
    r = c.rng
    n = int(r.choice([0, 1, 2, 5, 12, 20])); internal = bool(c.i % 2)
    x = orc.rand_point(r, orc.SPH, 5000., 9000.); coef = orc.rand_coef(r, n)
    c.note(location=x, coef=coef, is_internal=internal)
    kw = dict(coord_type_in=1, coord_type_out=1, is_internal=internal)
    v = _pymm.sheval(x, coef, mode=_pymm.POTENTIAL, **kw); g = _pymm.sheval(x, coef, mode=_pymm.GRADIENT, **kw)
    v2, g2 = _pymm.sheval(x, coef, mode=_pymm.POTENTIAL_AND_GRADIENT, **kw)
    s = scale(coef, x[2], internal, n)
    c.close(v, v2, "potential", rtol=1e-12, atol=1e-12 * s * x[2]); c.close(g, g2, "gradient", rtol=1e-12, atol=1e-12 * s / max(1e-4, np.cos(np.radians(x[0]))))

@contract("C05", 60)
def arrays(c):
    """array inputs are evaluated element by element"""
    r = c.rng
    n = int(r.integers(0, 6)); internal = bool(c.i % 2); shape = [(3,), (2, 2), (0,)][c.i % 3]
    pts = np.array([orc.rand_point(r, orc.SPH, 5000., 9000.) for _ in range(int(np.prod(shape)))]).reshape((*shape, 3))
    coef = orc.rand_coef(r, n)
    p, d = legendre(pts[..., 0], n); rr = relradpow(pts[..., 2], n, is_internal=internal); cs = loncossin(pts[..., 1], n)
    cf = np.broadcast_to(coef, (*shape, *coef.shape)).copy() if c.i % 2 else coef
    V = spharpot(orc.odd_layout(r, pts[..., 2]), orc.odd_layout(r, cf), orc.odd_layout(r, p), orc.odd_layout(r, rr), orc.odd_layout(r, cs))
    G = sphargrd(orc.odd_layout(r, pts[..., 0]), orc.odd_layout(r, cf), orc.odd_layout(r, p), orc.odd_layout(r, d), orc.odd_layout(r, rr), orc.odd_layout(r, cs), is_internal=internal)
    c.require(V.shape == shape and G.shape == (*shape, 3), "shape")
    for k in np.ndindex(shape):
        c.same(V[k], spharpot(pts[k][2], coef, p[k], rr[k], cs[k]), "element of the potential", points=pts)
        c.same(G[k], sphargrd(pts[k][0], coef, p[k], d[k], rr[k], cs[k], is_internal=internal), "element of the gradient", points=pts)

@contract("C05", 6)
def gradient_extreme(c):
    """very high degrees: the gradient at a pole is finite and continues the gradient next to it"""
    r = c.rng
    n = int(r.choice([700, 1030, 1100, 1500, 2000])); lat = 90. * (-1) ** c.i; lon = float(r.uniform(-180, 180))
    coef = r.uniform(-1, 1, ((n + 1) * (n + 2) // 2, 2)) / n
    c.note(degree=n, latitude=lat, longitude=lon)
    g, h = [sphargrd(x, coef, *legendre(x, n), relradpow(1., n, 1.), loncossin(lon, n), is_internal=True) for x in (lat, lat * (1 - 1e-10))]
    c.require(np.isfinite(g).all(), "finite")
    c.close(g, h, "continuity at the pole", rtol=1e-4, atol=1e-4)
