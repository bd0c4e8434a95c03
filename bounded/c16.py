from core import contract
import numpy as np, orc
from eoxmagmod import sheval, GEODETIC_ABOVE_WGS84 as GD, GEOCENTRIC_SPHERICAL as SP, GEOCENTRIC_CARTESIAN as CA
from eoxmagmod.magnetic_model import coefficients as K
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel as M
from c15 import Ref, degs

def tree(r, depth, internal=True):
    k = int(r.integers(0, 3)) if depth else 0
    if k == 0: return Ref(r, internal=internal).obj
    its = [tree(r, depth - 1, internal) for _ in range(int(r.integers(2, 4)))]
    try: return (K.ComposedSHCoefficients if k == 1 else K.CombinedSHCoefficients)(*its)
    except ValueError: return its[0]

def leaves(o):
    return [o] if not hasattr(o, "__iter__") else [x for i in o for x in leaves(i)]
def bounds(o): return sorted({float(v) for x in leaves(o) for v in x.validity if np.isfinite(v)})
def sample_times(r, o, n=5):
    b = bounds(o) or [0.]
    return np.concatenate([r.uniform(b[0] - 100, b[-1] + 100, n - 2), r.uniform(b[0], b[-1] + 1e-3, 2)])
def loc(r, t, n=None):
    sp = r.random() < .3
    return orc.rand_point(r, t, 6000., 8000., special=sp) if n is None else np.array([orc.rand_point(r, t, 6000., 8000., special=sp) for _ in range(n)])

def expected(o, t, x, cti, cto, opt):
    if not (o.validity[0] <= t <= o.validity[1]): return np.full(3, np.nan)
    cf, d = o(t, **opt)
    g = sheval(x, cf, degree=d, is_internal=o.is_internal, coord_type_in=cti, coord_type_out=cto)
    return -np.asarray(opt.get("scale", 1.0)) * g

def options(r):
    o = degs(r)
    if r.random() < .3: o["scale"] = float(r.normal())
    elif r.random() < .2: o["scale"] = r.normal(size=3)
    return o

def frames(r): return int(r.choice([GD, SP, CA])), int(r.choice([GD, SP, CA]))

@contract("C16", 900)
def value(c):
    """the field of the own coefficients inside of the validity, NaN outside and for NaN"""
    r = c.rng; o = tree(r, 2, r.random() < .8); m = M(o); cti, cto = frames(r); opt = options(r)
    c.note(validity=o.validity, cti=cti, cto=cto, opt=opt)
    c.require(m.validity == o.validity and m.degree == o.degree and m.min_degree == o.min_degree, "model attributes")
    for t in sample_times(r, o):
        x = loc(r, cti); kw = dict(input_coordinate_system=cti, output_coordinate_system=cto)
        w = expected(o, t, x, cti, cto, opt); g = m.eval(t, x, **kw, **opt)
        s = np.abs(w).max() + 10 * sum(np.abs(l._coeff).max() for l in leaves(o))*np.abs(np.asarray(opt.get("scale", 1.))).max()
        c.close(g, w, "field at %r" % t, rtol=1e-8, atol=1e-8 * (s if np.isfinite(s) else 1), time=t, x=x)
    x = loc(r, cti)
    c.same(m.eval(np.nan, x, **kw, **opt), [np.nan] * 3, "NaN time")
    inner = [v for v in o.validity if np.isfinite(v)]
    if inner and not any(isinstance(q, K.SparseSHCoefficientsTimeDependentDecimalYear) for q in leaves(o)) and o.validity[0] < o.validity[1]:
        for v in inner: c.require(np.isfinite(m.eval(v, x, **kw, **opt)).all(), "validity bounds are included", time=v)
        c.require(np.isnan(m.eval(o.validity[1] + 1e-6, x, **kw, **opt)).all() and np.isnan(m.eval(o.validity[0] - 1e-6, x, **kw, **opt)).all(), "outside of the validity") if np.isfinite(o.validity).all() else None

@contract("C16", 600)
def batches(c):
    """arrays agree with scalar evaluation, broadcasting over the trailing dimensions, incompatible shapes"""
    r = c.rng; o = tree(r, 2); m = M(o); cti, cto = frames(r); opt = options(r); kw = dict(input_coordinate_system=cti, output_coordinate_system=cto, **opt)
    t = np.concatenate([sample_times(r, o, 4), [np.nan], r.choice((bounds(o) or [0.]), 1)])
    x = loc(r, cti, 6)
    c.note(validity=o.validity, time=t, x=x, cti=cti, cto=cto, opt=opt)
    ref = np.array([[m.eval(float(q), y, **kw) for y in x] for q in t])
    dg = ref[np.arange(6), np.arange(6)]
    c.same(m.eval(t, x, **kw), dg, "paired arrays")
    c.same(m.eval(t.reshape(2, 3), orc.odd_layout(r, x.reshape(2, 3, 3)), **kw), dg.reshape(2, 3, 3), "2D arrays")
    k = int(r.integers(0, 6))
    c.same(m.eval(float(t[k]), x, **kw), ref[k], "scalar time"); c.same(m.eval(float(t[k]), x.reshape(2, 3, 3), **kw), ref[k].reshape(2, 3, 3), "scalar time, 2D locations")
    c.same(m.eval(t, x[k], **kw), ref[:, k], "single location")
    c.same(m.eval(t.reshape(3, 2), x[k], **kw), ref[:, k].reshape(3, 2, 3), "single location, 2D times")
    c.same(m.eval(t[:2], x.reshape(2, 3, 3), **kw), np.array([ref[0, :3], ref[1, 3:]]), "times broadcast over trailing dimensions")
    c.same(m.eval(t.reshape(2, 3), x[:2], **kw), np.array([ref[:3, 0], ref[3:, 1]]), "locations broadcast over trailing dimensions")
    c.same(m.eval(t[::-1], x[::-1], **kw), dg[::-1], "reversed")
    for a, b in (((5,), (6, 3)), ((2, 3), (3, 2, 3)), ((6,), (2, 3, 3)), ((2, 3), (3, 3))):
        c.raises(lambda: m.eval(np.zeros(a), np.ones(b) * 6500., **kw), "incompatible shapes %s %s" % (a, b))
    c.require(m.eval(np.zeros(0), np.zeros((0, 3)), **kw).shape == (0, 3), "empty")
