from core import contract
import numpy as np, orc
from eoxmagmod import GEODETIC_ABOVE_WGS84 as GD, GEOCENTRIC_SPHERICAL as SP, GEOCENTRIC_CARTESIAN as CA, convert, vrotate, trace_field_line
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel as M, GeomagneticModel
from eoxmagmod.magnetic_model.coefficients import SparseSHCoefficientsConstant as C0, SparseSHCoefficientsTimeDependent as CT
from c16 import loc, frames
RE = 6371.2

class Toy(GeomagneticModel):
    """smooth synthetic field, also with a zero region"""
    validity = (-np.inf, np.inf)
    def __init__(self, a, zero=None): self.a, self.zero = a, zero
    def eval(self, time, location, input_coordinate_system=SP, output_coordinate_system=SP, **opt):
        x = convert(location, input_coordinate_system, CA); b = self.a @ np.array([1., *(np.asarray(x) / RE)]) * (1 + 0.001 * time) * opt.get("scale", 1.0)
        if self.zero is not None and np.linalg.norm(x) < self.zero: b = b * 0
        return vrotate(b, None, convert(x, CA, output_coordinate_system), CA, output_coordinate_system) if output_coordinate_system != CA else b

def model(r):
    k = int(r.integers(0, 4))
    if k == 0: return Toy(r.normal(size=(3, 4))), "toy"
    if k == 1 and r.random() < .4: return Toy(r.normal(size=(3, 4)), float(r.uniform(6000, 9000))), "toy with a zero region"
    nm = [(1, 0), (1, 1), (1, -1), (2, 0), (2, 1)]; cf = np.array([-29000., -1500., 4800., -2500., 3000.]) * r.uniform(.7, 1.3, 5)
    if k == 2: return M(CT(nm, np.stack([cf, cf * 1.01], -1), [0., 3650.])), "SH"
    return M(C0(nm, cf)), "SH const"

@contract("C20", 250)
def tracing(c):
    """start point contained, steps along the local field, ordering, stop conditions, reported field"""
    r = c.rng; m, kind = model(r); cti, cto = frames(r); t = float(r.uniform(1, 3000))
    p = loc(r, cti); X0 = convert(p, cti, CA); R0 = float(np.linalg.norm(X0))
    to = {}
    step = float(r.choice([100., 50., 500., 20.])); ms = int(r.choice([1, 2, 10, 40])); to = dict(step=step, max_steps=ms)
    lo, hi = .9977 * RE, 1e6 * RE
    if r.random() < .5: lo = float(r.uniform(5000, R0 + 50)); to["min_radius"] = lo
    if r.random() < .5: hi = float(r.uniform(R0 - 50, 12000)); to["max_radius"] = hi
    if r.random() < .1: del to["step"]; step = 100.
    if r.random() < .1: to = None; step, ms, lo, hi = 100., 500, .9977 * RE, 1e6 * RE
    mo = dict(scale=float(r.choice([2., .5, -1.]))) if r.random() < .3 else None
    c.note(model=kind, time=t, point=p, cti=cti, cto=cto, trace_options=to, model_options=mo)
    kw = {} if to is None else dict(trace_options=to)
    if mo: kw["model_options"] = mo
    keep = np.array(p, copy=True)
    coords, field = trace_field_line(m, t, p, input_coordinate_system=cti, output_coordinate_system=cto, **kw)
    c.same(p, keep, "start point modified")
    c.require(coords.shape == field.shape and coords.ndim == 2 and coords.shape[1] == 3 and len(coords) >= 2, "shapes", res=(coords.shape, field.shape))
    # independent tracing
    f = lambda x: m.eval(t, x, input_coordinate_system=CA, output_coordinate_system=CA, **(mo or {}))
    def side(sign):
        pts = [np.array(X0, dtype=float)]
        for _ in range(ms):
            x = pts[-1]; b = f(x); n = np.sqrt((b * b).sum())
            x = x + (sign * step * np.sqrt((x * x).sum()) / RE / n * b if n > 0 else 0)
            pts.append(x); q = np.sqrt((x * x).sum())
            if q <= lo or q >= hi: break
        return pts
    dn, up = side(1.), side(-1.)
    line = np.array(up[::-1][:-1] + dn); n0 = len(up) - 1
    c.require(len(line) == len(coords), "number of points %d expected %d (start at %d)" % (len(coords), len(line), n0))
    back = convert(coords, cto, CA)
    s = np.abs(line).max()
    c.close(back, line, "points of the line", rtol=0, atol=1e-8 * s)
    c.close(back[n0], X0, "start point", rtol=0, atol=1e-9 * s + 3e-4)
    for k in range(len(line)):
        b = f(line[k]); y = convert(line[k], CA, cto)
        w = vrotate(b, None, y, CA, cto) if cto != CA else b
        w2 = np.asarray(orc.frame(y, cto) @ np.asarray(b, dtype=np.longdouble), dtype=float)
        c.close(field[k], w, "field at point %d" % k, rtol=1e-6, atol=1e-6 * np.abs(b).max()); c.close(w, w2, "oracle", rtol=1e-6, atol=1e-6 * np.abs(b).max())

class Radial(GeomagneticModel):
    """field along the radius, of unit intensity or zero: points and radii on an axis are exact"""
    validity = (-np.inf, np.inf)
    def eval(self, time, location, input_coordinate_system=SP, output_coordinate_system=SP, **opt):
        assert input_coordinate_system == output_coordinate_system == CA
        p = np.asarray(location, dtype=float); return np.sign(p)

@contract("C20", 60)
def limits(c):
    """a point exactly at a limit ends the side"""
    r = c.rng; R = 8192.; q = 2. ** -int(r.integers(1, 6)); ax = int(r.integers(0, 3)); sg = float(r.choice([-1., 1.]))
    up, dn = [R], [R]; ms = int(r.integers(1, 9))
    for _ in range(ms): up.append(up[-1] + up[-1] * q); dn.append(dn[-1] - dn[-1] * q)
    i, j = int(r.integers(0, ms + 1)), int(r.integers(0, ms + 1)); hi, lo = up[i], dn[j]
    if r.random() < .3: lo = hi if i else R
    c.note(ratio=q, axis=ax, sign=sg, max_steps=ms, min_radius=lo, max_radius=hi)
    def cut(l):
        out = l[:1]
        for x in l[1:]:
            out.append(x)
            if x <= lo or x >= hi: break
        return out
    want = cut(dn)[::-1][:-1] + cut(up)
    p = np.zeros(3); p[ax] = sg * R
    x, f = trace_field_line(Radial(), 0., p, CA, CA, trace_options=dict(step=R * q, max_steps=ms, min_radius=lo, max_radius=hi), model_options=dict(radius=R))
    c.require(len(x) == len(want), "number of points %d, expected %d" % (len(x), len(want)))
    c.same(x[:, ax] * sg, np.array(want), "points"); c.same(f[:, ax], np.full(len(want), sg), "field")
