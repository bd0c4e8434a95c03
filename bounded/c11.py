from core import contract
import numpy as np, orc
from eoxmagmod import vrot_sph2geod, vrot_sph2cart, vrot_cart2sph, vrotate, vnorm, vincdecnorm, convert
f8 = lambda a: np.asarray(a, dtype=float)
ANG = [0., 90., -90., 180., -180., 45., 30., 270., 360., 89.9999]

def ang(r, lim): return float(r.choice(ANG)) if r.random() < .3 else float(r.uniform(-lim, lim))

@contract("C11", 1000)
def rotations(c):
    """rotation matrices from the local axes; inverse; norm"""
    r = c.rng
    v = r.normal(size=3) * 10.0 ** r.integers(-3, 5); la, lo, d = ang(r, 90), ang(r, 360), ang(r, 1.0)
    s = np.linalg.norm(v)
    c.note(v=v, lat=la, lon=lo, dlat=d)
    B = orc.nec_basis(la, lo)
    c.close(vrot_sph2cart(v, la, lo), f8(B.T @ v), "vrot_sph2cart", rtol=0, atol=1e-13 * s)
    c.close(vrot_cart2sph(v, la, lo), f8(B @ v), "vrot_cart2sph", rtol=0, atol=1e-13 * s)
    c.close(vrot_sph2cart(vrot_cart2sph(v, la, lo), la, lo), v, "inverse", rtol=0, atol=1e-13 * s)
    M = orc.nec_basis(la + 0 * d, 0.); 
    sd, cd = orc.sincosd(d)
    # rotating from latitude l to l + d: north' = cos d north - sin d up ... (d = output minus input latitude)
    w = [cd * v[0] - sd * v[2], v[1], sd * v[0] + cd * v[2]]
    c.close(vrot_sph2geod(v, d), f8(w), "vrot_sph2geod", rtol=0, atol=1e-13 * s)
    c.close(vrot_sph2geod(vrot_sph2geod(v, d), -d), v, "inverse", rtol=0, atol=1e-13 * s)

@contract("C11", 1000)
def vrotate_frames(c):
    """vrotate between any two frames of one point is the physical identity"""
    r = c.rng; cti, cto = divmod(c.i % 9, 3)
    x = orc.rand_point(r, 0, 6000., 9000.)
    if abs(x[0]) > 89.99999: x[0] = np.sign(x[0]) * 90.
    v = r.normal(size=3)
    co = [x, convert(x, 0, 1), convert(x, 0, 2)]
    c.note(v=v, point=x, cti=cti, cto=cto)
    ci = None if cti == 2 and c.i % 2 else co[cti]; cx = None if cto == 2 and c.i % 2 else co[cto]
    got = vrotate(v, ci, cx, cti, cto)
    fr = [orc.nec_basis(x[0], x[1]), orc.nec_basis(co[1][0], x[1]), np.eye(3)]
    c.close(got, f8(fr[cto] @ (fr[cti].T @ v)), "vrotate", rtol=0, atol=3e-14)
    if cti == cto: c.same(got, v, "same frame")
    arr = r.normal(size=(2, 3, 3)); X = np.broadcast_to(x, (2, 3, 3)).copy(); X[..., 1] += r.uniform(-20, 20, (2, 3))
    co = [X, convert(X, 0, 1), convert(X, 0, 2)]
    g = vrotate(arr, co[cti], co[cto], cti, cto)
    for k in np.ndindex(2, 3): c.same(g[k], vrotate(arr[k], co[cti][k], co[cto][k], cti, cto), "element")
    for bad in (3, -1, 9):
        c.raises(lambda: vrotate(v, x, x, cti, bad), "unsupported frame"); c.raises(lambda: vrotate(v, x, x, bad, cto), "unsupported frame")

@contract("C11", 500)
def quantities(c):
    """norm, inclination, declination, intensity"""
    r = c.rng
    sh = [(), (3,), (2, 2), (0,)][c.i % 4]
    v = r.normal(size=(*sh, 3)) * 10.0 ** r.integers(-3, 5)
    if c.i % 7 == 0 and v.size: v[..., int(r.integers(3))] = 0
    c.note(v=v)
    n = np.sqrt((v.astype(np.longdouble) ** 2).sum(axis=-1))
    c.close(vnorm(v), f8(n), "vnorm", rtol=1e-14); c.close(vnorm(v.tolist()) if v.size else vnorm(v), f8(n), "vnorm", rtol=1e-14)
    inc, dec, F = vincdecnorm(v)
    c.require(inc.shape == dec.shape == F.shape == sh, "shape")
    c.close(F, f8(n), "intensity", rtol=1e-14)
    i, d = np.radians(inc), np.radians(dec)
    w = np.stack([F * np.cos(i) * np.cos(d), F * np.cos(i) * np.sin(d), -F * np.sin(i)], axis=-1)
    c.require(((-90 <= inc) & (inc <= 90) & (-180 <= dec) & (dec <= 180)).all(), "range")
    c.close(w, v, "vector reproduced", rtol=0, atol=1e-12 * (1e-300 + f8(n).max() if v.size else 1))
