from core import contract
import numpy as np, orc
from eoxmagmod import GEODETIC_ABOVE_WGS84 as GD, GEOCENTRIC_SPHERICAL as SP, GEOCENTRIC_CARTESIAN as CA, convert
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel as M, DipoleSphericalHarmomicGeomagneticModel as DM, GeomagneticModel
from eoxmagmod.magnetic_model.model_composed import ComposedGeomagneticModel as CM
from c16 import tree, leaves, bounds, loc, frames
from c15 import degs

class Probe(GeomagneticModel):
    """records its arguments; a synthetic model"""
    def __init__(self, parameters, validity): self.parameters = parameters; self.validity = validity; self.seen = []
    validity = None
    def eval(self, time, location, input_coordinate_system=SP, output_coordinate_system=SP, **options):
        self.seen.append(dict(options)); s = options.get("scale", 1.0)
        location = np.asarray(location); time = np.asarray(time)
        return s * np.stack([np.sin(location[..., 0]), np.cos(location[..., 1]), location[..., 2] * 1e-3], -1) * (1 + options.get("amp", 0)) + time[..., None] * 0

def members(r, n):
    out = []
    for _ in range(n):
        o = tree(r, 1, r.random() < .8)
        m = M(o) if r.random() < .7 else DM(o, (float(r.uniform(-90, 90)), float(r.uniform(-180, 180))))
        par = {k: v for k, v in degs(r).items() if r.random() < .5}
        out.append((m, float(r.choice([1.0, r.normal(), -1., 0.5])), par))
    return out

@contract("C17", 500)
def summation(c):
    """the scaled sum of the member fields with own parameters in any frame; validity; arrays"""
    r = c.rng; n = int(r.integers(1, 4)); ms = members(r, n); cti, cto = frames(r); opt = degs(r)
    f = CM()
    plain = r.random() < .3
    if plain: f = CM(*[m for m, _, _ in ms]); ms = [(m, 1.0, {}) for m, _, _ in ms]
    else:
        for m, s, p in ms: f.push(m, s, **p)
    kw = dict(input_coordinate_system=cti, output_coordinate_system=cto)
    t = [float(q) for m, _, _ in ms for q in (bounds(m.coefficients) or [0.])]
    t = np.concatenate([r.uniform(min(t), max(t) + 1, 5), [np.nan]]); x = loc(r, cti, 6)
    fs = float(r.normal()) if r.random() < .4 else None
    ko = dict(opt, scale=fs) if fs is not None else opt
    c.note(time=t, x=x, opt=ko, cti=cti, cto=cto, members=[(type(m).__name__, s, p, m.validity) for m, s, p in ms])
    want = sum(s * m.eval(t, x, **kw, **dict(opt, **p)) for m, s, p in ms) * (1.0 if fs is None else fs)
    sc = np.nanmax(np.abs(want)) if np.isfinite(want).any() else 0.
    g = f.eval(t, x, **kw, **ko)
    c.close(g, want, "sum of the members", rtol=1e-8, atol=2e-8 * sum(abs(s) * (np.nanmax(np.abs(m.eval(t, x, **kw, **dict(opt, **p)))) if np.isfinite(m.eval(t, x, **kw, **dict(opt, **p))).any() else 0) for m, s, p in ms) * (1 if fs is None else abs(fs)) + 1e-12)
    at = 1e-9 * (sc + 100)
    def cs(u, v, msg): c.close(u, v, msg, rtol=1e-9, atol=at)
    for k in range(6): cs(f.eval(float(t[k]), x[k], **kw, **ko), g[k], "scalar evaluation")
    cs(f.eval(t.reshape(2, 3), x[0], **kw, **ko), np.array([f.eval(float(q), x[0], **kw, **ko) for q in t]).reshape(2, 3, 3), "broadcast location")
    cs(f.eval(float(t[0]), x.reshape(3, 2, 3), **kw, **ko), np.array([f.eval(float(t[0]), y, **kw, **ko) for y in x]).reshape(3, 2, 3), "broadcast time")
    a, b = max([m.validity[0] for m, _, _ in ms]), min([m.validity[1] for m, _, _ in ms])
    if a < b: c.require(tuple(f.validity) == (a, b), "validity", res=f.validity)
    c.raises(lambda: f.eval(np.zeros(5), np.ones((6, 3)), **kw), "incompatible shapes")

@contract("C17", 300)
def parameters(c):
    """members get their own parameters, required parameters are the union, empty composition is zero"""
    r = c.rng; names = np.array(["time", "location", "f107", "subsolar_point", "x", "y"])
    ps = [Probe(tuple(names[r.random(6) < .5]), tuple(sorted(r.normal(size=2) * 10)) if r.random() < .6 else (-np.inf, np.inf)) for _ in range(int(r.integers(1, 4)))]
    own = [dict(amp=float(r.normal())) if r.random() < .6 else {} for _ in ps]; sc = r.normal(size=len(ps)); glob = dict(amp=float(r.normal()), zz=3) if r.random() < .5 else {}
    f = CM()
    for p, s, o in zip(ps, sc, own): f.push(p, float(s), **o)
    c.require(set(f.parameters) == {"time", "location"}.union(*[p.parameters for p in ps]) and len(f.parameters) == len(set(f.parameters)), "required parameters", res=f.parameters)
    a, b = max(p.validity[0] for p in ps), min(p.validity[1] for p in ps)
    if a < b: c.require(tuple(f.validity) == (a, b), "validity", res=f.validity)
    cti = int(r.choice([GD, SP, CA])); x = loc(r, cti, 4); t = r.normal(size=4)
    g = f.eval(t, x, input_coordinate_system=cti, **glob); xs = convert(x, cti, SP)
    w = sum(float(s) * Probe((), None).eval(t, xs, **dict(glob, **o)) for s, o in zip(sc, own))
    c.close(g, w, "own parameters", rtol=1e-12, atol=1e-9, own=own, glob=glob)
    for p, o, s in zip(ps, own, sc): c.require(p.seen[0] == dict(glob, **o, scale=float(s)), "options of a member", res=p.seen[0])
    e = CM(); cto = int(r.choice([GD, SP, CA]))
    c.require(set(e.parameters) == {"time", "location"} and tuple(e.validity) == (-np.inf, np.inf), "empty composition attributes")
    tt = np.array([1., np.nan, 3., 4.])
    z = np.where(np.isnan(tt)[:, None], np.nan, np.zeros((4, 3)))
    c.same(e.eval(tt, x, input_coordinate_system=cti, output_coordinate_system=cto), z, "empty composition")
    c.same(e.eval(2., x, input_coordinate_system=cti, output_coordinate_system=cto), np.zeros((4, 3)), "empty composition, scalar time")
    c.same(e.eval(tt, x[0], input_coordinate_system=cti, output_coordinate_system=cto, scale=2.), z, "empty composition, single location")
    c.same(e.eval(np.nan, x[0]), [np.nan] * 3, "empty composition, NaN"); c.same(e.eval(np.nan, x), np.full((4, 3), np.nan), "empty composition, NaN time, locations")
