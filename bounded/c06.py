from core import contract
import numpy as np, orc
from eoxmagmod import _pymm, sheval, vrotate, convert
from c05 import scale
P, G, PG = _pymm.POTENTIAL, _pymm.GRADIENT, _pymm.POTENTIAL_AND_GRADIENT

def oracle(x, ct_in, ct_out, coef, internal, degree):
    xc = orc.to_cart(x, ct_in)
    s = np.asarray(x, dtype=np.longdouble) if ct_in == orc.SPH else orc.cart_to_sph(xc)
    if ct_in != orc.CART: s[1] = x[1]
    V, N, E, U = orc.sh_eval(coef, s[0], s[1], s[2], internal, degree)
    vec = orc.nec_basis(s[0], s[1]).T @ np.array([N, E, U])       # Cartesian
    if ct_out == orc.CART: out = vec
    else:
        y = s if ct_out == orc.SPH else (np.asarray(x, dtype=np.longdouble) if ct_in == orc.GEOD else orc.from_cart(xc, orc.GEOD))
        # on the axis keep the longitude of the input
        out = orc.nec_basis(y[0], s[1]) @ vec
    return V, out, float(s[2]), float(s[0])

@contract("C06", 900)
def frames_and_scales(c):
    """the vector is the physical gradient in the requested frame; scales multiply the output components"""
    r = c.rng
    cti, cto = divmod(c.i % 9, 3)
    n = int(r.choice([0, 1, 2, 3, 5, 8, 13, 18])); internal = bool(r.integers(2))
    x = orc.rand_point(r, cti, 5500., 15000.); coef = orc.rand_coef(r, n)
    deg = int(r.choice([-1, -1, -1, n, max(n - 1, 0), 0, n + 5]))
    c.note(arr_x=x, coef=coef, coord_type_in=cti, coord_type_out=cto, is_internal=internal, degree=deg)
    V, out, rad, lat = oracle(x, cti, cto, coef, internal, deg if deg >= 0 else None)
    s = scale(coef, rad, internal, n) * (n + 1)
    kw = dict(coord_type_in=cti, coord_type_out=cto, is_internal=internal, degree=deg)
    g = sheval(x, coef, mode=G, **kw); v = sheval(x, coef, mode=P, **kw)
    cl = max(1e-9, float(np.cos(np.radians(lat))))
    tol = s * (1e-10 + min(3e-7, 1e-14 / cl))
    c.require(g.shape == (3,) and np.shape(v) == (), "shape")
    c.close(v, V, "potential", rtol=0, atol=tol * rad); c.close(g, out, "gradient", rtol=0, atol=tol)
    sp = float(r.normal()); sg = r.normal(size=3) if r.random() < .7 else float(r.normal())
    v2, g2 = sheval(x, coef, mode=PG, scale_potential=sp, scale_gradient=sg, **kw)
    c.close(v2, sp * v, "scaled potential", rtol=1e-12, atol=1e-12 * s * rad); c.close(g2, sg * g, "scaled gradient", rtol=1e-12, atol=1e-12 * s / cl * np.max(np.abs(sg)))
    c.close(sheval(x, coef, mode=G, scale_gradient=sg, scale_potential=7.0, **kw), sg * g, "scaled gradient", rtol=1e-14, atol=1e-15 * s)
    c.close(sheval(x, coef, mode=P, scale_potential=sp, scale_gradient=3.0, **kw), sp * v, "scaled potential", rtol=1e-14, atol=1e-15 * s * rad)
    if cti == 0 and cto == 0 and internal and deg == -1:
        c.same(sheval(x, coef), g, "defaults")

@contract("C06", 300)
def truncation(c):
    """degree truncates the expansion: equal to zeroed higher coefficients"""
    r = c.rng
    n = int(r.integers(1, 19)); d = int(r.integers(0, n + 1)); cti, cto = int(r.integers(3)), int(r.integers(3)); internal = bool(c.i % 2)
    x = orc.rand_point(r, cti, 5500., 9000.); coef = orc.rand_coef(r, n, 3)
    z = coef.copy(); z[orc.nmax_size(d):] = 0
    c.note(arr_x=x, coef=coef, coord_type_in=cti, coord_type_out=cto, is_internal=internal, degree=d)
    kw = dict(coord_type_in=cti, coord_type_out=cto, is_internal=internal, mode=PG)
    a, b, e = sheval(x, coef, degree=d, **kw), sheval(x, z, **kw), sheval(x, coef[:orc.nmax_size(d)], **kw)
    s = scale(coef, float(np.linalg.norm(np.asarray(orc.to_cart(x, cti), dtype=float))), internal, n)
    for k in (0, 1):
        c.close(a[k], b[k], "truncated by degree", rtol=1e-9, atol=1e-6 * s * (9e3, 1)[k]); c.same(a[k], e[k], "shorter array")
