from core import contract
import numpy as np, orc
from eoxmagmod import _pymm

@contract("C04", 400)
def radial_powers(c):
    """term i is (a/r)^(i+2) or (r/a)^(i-1)"""
    r = c.rng
    n = int(r.choice([0, 1, 2, 3, 5, 10, 20, 60])); internal = bool(c.i % 2)
    a = float(r.choice([6371.2, 1.0, 100.0])) if r.random() < .7 else float(r.uniform(.5, 9e3))
    rad = a * float(r.uniform(.6, 3.0))
    L = np.longdouble; i = np.arange(n + 1)
    c.note(radius=rad, degree=n, reference_radius=a, is_internal=internal)
    got = _pymm.relradpow(rad, n, a, internal)
    want = (L(a) / L(rad)) ** (i + 2) if internal else (L(rad) / L(a)) ** (i - 1)
    c.close(got, want, "relradpow", rtol=1e-13 * (n + 4))
    if a == 6371.2:
        c.close(_pymm.relradpow(rad, n, is_internal=internal), want, "default reference radius", rtol=1e-13 * (n + 4))
    if internal: c.same(_pymm.relradpow(rad, n, a), got, "default internal")
    shape = [(3,), (2, 2), (0,), (1, 3, 1)][c.i % 4]
    rr = a * r.uniform(.6, 3, shape)
    g = _pymm.relradpow(orc.odd_layout(r, rr), n, a, internal)
    c.require(g.shape == (*shape, n + 1), "shape")
    for k in np.ndindex(shape): c.same(g[k], _pymm.relradpow(rr[k], n, a, internal), "element", k=k, radii=rr)

@contract("C04", 400)
def longitude_series(c):
    """term i is cos(i lon), sin(i lon); both algorithms agree; degrees are accepted as any real number"""
    r = c.rng
    n = int(r.choice([0, 1, 2, 3, 4, 5, 7, 10, 31, 100, 700]))
    lon = float(r.choice([0, 90, 180, -180, 270, 45, 360, 30, -90])) if r.random() < .3 else float(r.uniform(-360, 720))
    c.note(longitude=lon, degree=n)
    want = np.array([orc.sincosd(np.longdouble(lon) * i)[::-1] for i in range(n + 1)])
    for fast in (True, False):
        got = _pymm.loncossin(lon, n, fast)
        c.close(got, want, "loncossin fast=%s" % fast, rtol=0, atol=1e-13 + 2e-15 * n + 1e-15 * abs(lon) / 57 * n)
    c.same(_pymm.loncossin(lon, n), _pymm.loncossin(lon, n, True), "default algorithm")
    shape = [(3,), (2, 2), (0,), (1, 3, 1)][c.i % 4]
    lo = r.uniform(-360, 360, shape)
    for fast in (True, False):
        g = _pymm.loncossin(orc.odd_layout(r, lo), n, fast)
        c.require(g.shape == (*shape, n + 1, 2), "shape")
        for k in np.ndindex(shape): c.same(g[k], _pymm.loncossin(lo[k], n, fast), "element", k=k, lon=lo)
    c.raises(lambda: _pymm.loncossin(lon, -1), "negative degree"); c.raises(lambda: _pymm.relradpow(7000., -1), "negative degree")
