from core import contract
import numpy as np, orc
from eoxmagmod import convert

def wrap(d): return (d + 180.) % 360. - 180.

@contract("C10", 3000)
def same_point(c):
    """any conversion denotes the same point; geodetic follows the ellipsoid; ranges"""
    r = c.rng; cti, cto = divmod(c.i % 9, 3)
    x = orc.rand_point(r, cti, 1000.1, 1e5)
    if c.i % 11 == 0 and cti == 2: x = np.array([[0, 0, 7000.], [0, 0, -7000.], [7000., 0, 0], [-7000, 0, 0], [0, -6500, 0], [0, 6500., 1e-9]])[(c.i // 11) % 6]
    c.note(coords=x, cti=cti, cto=cto)
    y = convert(x, cti, cto)
    if cti == cto:
        c.same(y, x, "identical system"); return
    X = orc.to_cart(x, cti); R = float(np.sqrt((X * X).sum()))
    Y = orc.to_cart(y, cto)
    c.require(np.isfinite(y).all(), "non-finite", res=y)
    c.close(np.asarray(Y - X, dtype=float), [0, 0, 0], "point in space", rtol=0, atol=R * 3e-14 * (1 if cto == 2 or cti == 2 and cto == 1 else 5) + 7e-8 + (R * 3e-8 if cti == 2 and np.hypot(X[0], X[1]) < 1e-3 * R else 0), res=y)  # 7e-8 km: the polar axis is rounded to 0.1 mm
    if cto != 2:
        c.require(-90 <= y[0] <= 90, "latitude range", res=y)
        if cti == 2: c.require(-180 <= y[1] <= 180, "longitude range", res=y)
        else: c.close(wrap(y[1] - x[1]), 0, "longitude", rtol=0, atol=1e-12)

@contract("C10", 1500)
def inverse_and_composition(c):
    """a conversion and its inverse return the original; direct equals via a third system"""
    r = c.rng; a, b = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)][c.i % 6]; m = 3 - a - b
    x = orc.rand_point(r, a, 1001., 6e4)
    c.note(coords=x, cti=a, cto=b)
    y = convert(x, a, b); z = convert(y, b, a); w = convert(convert(x, a, m), m, b)
    R = float(np.sqrt((orc.to_cart(x, a).astype(float) ** 2).sum()))
    # latitudes in double degrees resolve ~1e-8 rad of the pole distance when converted through Cartesian coordinates
    pole = R * 3e-8 if a != 2 and abs(x[0]) > 89.9 else 1e-10 * R / 6371.
    if a == 2 and np.hypot(x[0], x[1]) < 1e-3 * R: pole = R * 3e-8   # only up to the rounding of the latitude
    def cmp(u, v, t, msg):
        if t == 2: c.close(u, v, msg, rtol=0, atol=R * 1e-13 + 2e-9 + pole); return
        c.close(np.asarray(orc.to_cart(u, t) - orc.to_cart(v, t), dtype=float), [0, 0, 0], msg, rtol=0, atol=R * 1e-13 + 2e-9 + pole)
        c.close(u[2], v[2], msg + " (radius/height)", rtol=0, atol=R * 1e-13 + 2e-9 + pole)
        c.close(u[0], v[0], msg + " (latitude)", rtol=0, atol=2e-6 if abs(v[0]) > 89.9 else 1e-10)
        if abs(v[0]) < 89.9999: c.close(wrap(u[1] - v[1]), 0, msg + " (longitude)", rtol=0, atol=1e-9)
    cmp(z, x, a, "inverse conversion"); cmp(w, y, b, "conversion via the third system")

@contract("C10", 40)
def types(c):
    """unknown systems and wrong shapes are rejected"""
    for t in (-1, 3, 7, 100): 
        c.raises(lambda: convert([1., 2., 7000.], t, 0), "type %d" % t); c.raises(lambda: convert([1., 2., 7000.], 0, t), "type %d" % t)
    for s in ((2,), (4,), (3, 2), ()): c.raises(lambda: convert(np.ones(s), 0, 1), "shape")
    c.same(convert([10., 20., 30.]), [10., 20., 30.], "default"); c.close(convert([10., 20., 30.], 0, 1), convert([10., 20., 30.], coord_type_out=1), "keywords", rtol=0)
