from core import contract
import numpy as np, orc, os, tempfile
from eoxmagmod import GEODETIC_ABOVE_WGS84 as GD, GEOCENTRIC_SPHERICAL as SP, GEOCENTRIC_CARTESIAN as CA, convert, sheval, convert_to_dipole
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO as KM
from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel as DM, MIOPrimaryGeomagneticModel as PM
from eoxmagmod.magnetic_model import loader_mio as LM
from eoxmagmod.magnetic_time import mjd2000_to_magnetic_universal_time as mut
from eoxmagmod.time_util import mjd2000_to_year_fraction as yf
from eoxmagmod.quasi_dipole_coordinates import eval_subsol
from c16 import loc, frames
from c18 import refmat, pole
from c15 import rand_nm, degs

def make(r, internal=True):
    nm = rand_nm(r, int(r.integers(1, 5))); a, b = sorted(r.integers(-2, 5, 2)); d, e = sorted(r.integers(-2, 4, 2))
    cf = r.normal(size=(len(nm), e - d + 1, b - a + 1, 2)) * 10
    return nm, cf, (int(a), int(b), int(d), int(e))

def fourier(cf, ext, f, m):
    a, b, d, e = ext
    s = np.arange(d, e + 1)[:, None] * f * 2 * np.pi + np.arange(a, b + 1)[None, :] * m * 2 * np.pi / 24
    return (cf[..., 0] * np.cos(s) + cf[..., 1] * np.sin(s)).sum((-1, -2))

def matrix(nm, val, lo=-1, hi=-1):
    m = np.zeros((orc.nmax_size(int(nm[:, 0].max())), 2))
    for (n, k), v in zip(nm, val):
        if (lo < 0 or n >= lo) and (hi < 0 or n <= hi): m[orc.idx(n, abs(k)), int(k < 0)] = v
    return m

def reference(nm, cf, ext, internal, pl, wolf, t, x, cti, cto, f107=None, sol=None, opt={}):
    m = float(mut(t, *pl)) if sol is None else float(mut(t, *pl, *sol))
    mat = matrix(nm, fourier(cf, ext, float(yf(t)), m), opt.get("min_degree", -1), opt.get("max_degree", -1))
    d = convert_to_dipole(x, *pl, cti); G = -sheval(d, mat, is_internal=internal, coord_type_in=SP, coord_type_out=SP)
    y = convert(x, cti, cto); W = np.asarray(refmat(*pl), dtype=float)
    v = np.asarray(orc.frame(y, cto) @ (W @ (orc.nec_basis(d[0], d[1]).T @ G)), dtype=float)
    return v * opt.get("scale", 1.0) * (1.0 if f107 is None else 1 + wolf * f107)

def pick(a, k): return None if a is None else (float(a) if np.ndim(a) == 0 else float(a[k]))

@contract("C19", 800)
def single_model(c):
    """field of the 2D Fourier series coefficients in the dipole frame, scaled by 1 + wolf * f107; sub-solar point; arrays"""
    r = c.rng; internal = bool(r.random() < .7); nm, cf, ext = make(r); o = KM(nm, cf, ps_extent=ext, is_internal=internal); pl = pole(r); wolf = float(r.uniform(0, .03))
    m = DM(o, pl, wolf_ratio=wolf); cti, cto = frames(r); N = 5
    t = r.uniform(-3000, 9000, N); x = loc(r, cti, N); opt = degs(r)
    if r.random() < .3: opt["scale"] = float(r.normal())
    f = [None, float(r.uniform(60, 200)), r.uniform(60, 200, N)][int(r.integers(0, 3))]
    sol = None if r.random() < .5 else (r.uniform(-23, 23, N), r.uniform(-180, 180, N)) if r.random() < .5 else (float(r.uniform(-23, 23)), float(r.uniform(-180, 180)))
    if f is not None and np.ndim(f): f[int(r.integers(0, N))] = np.nan
    if r.random() < .2: t[int(r.integers(0, N))] = np.nan
    kw = dict(input_coordinate_system=cti, output_coordinate_system=cto, **opt)
    if f is not None: kw["f107"] = f
    if sol is not None: kw["lat_sol"], kw["lon_sol"] = sol
    c.note(time=t, x=x, ext=ext, nm=nm, cf=cf, pole=pl, wolf=wolf, internal=internal, kw=kw)
    g = m.eval(t, x, **kw)
    nn = len(nm)
    sc = np.abs(cf).sum() * 300 * abs(opt.get("scale", 1.))
    for k in range(N):
        fk = pick(f, k); sk = None if sol is None else (pick(sol[0], k), pick(sol[1], k))
        if np.isnan(t[k]) or fk is not None and np.isnan(fk): w = np.full(3, np.nan)
        else: w = reference(nm, cf, ext, internal, pl, wolf, t[k], x[k], cti, cto, fk, sk, opt)
        c.close(g[k], w, "field %d" % k, rtol=1e-8, atol=1e-9 * sc)
        kk = dict(kw)
        if fk is not None: kk["f107"] = fk
        if sk is not None: kk["lat_sol"], kk["lon_sol"] = sk
        c.close(m.eval(float(t[k]), x[k], **kk), w, "scalar evaluation %d" % k, rtol=1e-8, atol=1e-9 * sc)
    if np.ndim(f) == 0 and (sol is None or np.ndim(sol[0]) == 0):
        w = np.array([m.eval(float(t[0]), y, **kw) for y in x]); c.close(m.eval(float(t[0]), x, **kw), w, "scalar time, location array", rtol=1e-8, atol=1e-9 * sc)
    if sol is None or np.ndim(sol[0]) == 0:
        kk = dict(kw); w = []
        for k in range(N):
            if f is not None: kk["f107"] = pick(f, k)
            w.append(m.eval(float(t[k]), x[0], **kk))
        c.close(m.eval(t, x[0], **kw), np.array(w), "time array, single location", rtol=1e-8, atol=1e-9 * sc)
    c.require(m.validity == (-np.inf, np.inf), "validity")

@contract("C19", 200)
def validity(c):
    """NaN outside of the validity of the coefficients"""
    r = c.rng; nm, cf, ext = make(r); v = sorted(r.uniform(0, 5000, 2)); o = KM(nm, cf, ps_extent=ext, validity_start=v[0], validity_end=v[1]); m = DM(o, (80., -70.))
    t = np.array([v[0] - 1, v[0], (v[0] + v[1]) / 2, v[1], v[1] + 1, np.nan]); x = loc(r, SP, 6); c.note(time=t, validity=v)
    g = m.eval(t, x); c.require((np.isnan(g).all(1) == [1, 0, 0, 0, 1, 1]).all() and (np.isfinite(g).all(1) == [0, 1, 1, 1, 0, 0]).all(), "validity", res=g)

@contract("C19", 500)
def layers(c):
    """the primary field switches at the ionosphere radius point by point"""
    r = c.rng; parts = [make(r), make(r)]; pl = pole(r); wolf = float(r.uniform(0, .03)); hh = float(r.choice([110., 90., r.uniform(0, 400)])); er = float(r.choice([6371.2, 6371.2, 6400.]))
    b = DM(KM(parts[0][0], parts[0][1], ps_extent=parts[0][2], is_internal=False), pl, wolf_ratio=wolf); a = DM(KM(parts[1][0], parts[1][1], ps_extent=parts[1][2]), pl, wolf_ratio=wolf)
    kw0 = {} if er == 6371.2 and hh == 110. else dict(height=hh, earth_radius=er)
    m = PM(b, a, **kw0); N = 6; t = r.uniform(-3000, 9000, N)
    R = hh + er; cti, cto = frames(r)
    xs = np.array([orc.rand_point(r, SP, special=False) for _ in range(N)]); xs[:, 2] = R + np.array([0., -1e-6, 1e-6, -200., 300., r.uniform(-100, 100)]); r.shuffle(xs)
    x = xs if cti == SP else convert(xs, SP, cti); xb = convert(x, cti, SP)
    if cti != SP: x = x[np.abs(xb[:, 2] - R) > 1e-9]; t = t[:len(x)]; xb = convert(x, cti, SP); N = len(x)
    f = None if r.random() < .3 else float(r.uniform(60, 200)) if r.random() < .3 else r.uniform(60, 200, N)
    sol = None if r.random() < .6 else (r.uniform(-23, 23, N), r.uniform(-180, 180, N))
    kw = dict(output_coordinate_system=cto, **degs(r))
    if f is not None: kw["f107"] = f
    if sol: kw["lat_sol"], kw["lon_sol"] = sol
    c.note(time=t, x=x, cti=cti, radius=R, kw=kw)
    g = m.eval(t, x, input_coordinate_system=cti, **kw)
    sc = 1e-9 * 300 * (np.abs(parts[0][1]).sum() + np.abs(parts[1][1]).sum())
    for k in range(N):
        kk = dict(kw)
        if f is not None: kk["f107"] = pick(f, k)
        if sol: kk["lat_sol"], kk["lon_sol"] = (pick(q, k) for q in sol)
        w = (b if xb[k, 2] <= R else a).eval(float(t[k]), x[k], input_coordinate_system=cti, **kk)
        c.close(g[k], w, "field at radius %r" % xb[k, 2], rtol=1e-8, atol=sc + 1e-6 * np.abs(w).max() * (cto != CA and abs(xb[k, 0]) > 89.99))
    if N == 6 and sol is None and np.ndim(f) == 0:
        c.close(m.eval(t.reshape(2, 3), x.reshape(2, 3, 3), input_coordinate_system=cti, **kw), g.reshape(2, 3, 3), "2D arrays", rtol=1e-9, atol=sc)
        c.close(m.eval(float(t[0]), x, input_coordinate_system=cti, **kw), np.array([m.eval(float(t[0]), y, input_coordinate_system=cti, **kw) for y in x]), "scalar time", rtol=1e-9, atol=sc)
        c.close(m.eval(t, x[0], input_coordinate_system=cti, **kw), np.array([m.eval(float(q), x[0], input_coordinate_system=cti, **kw) for q in t]), "single location", rtol=1e-9, atol=sc)
    c.require((m.degree, m.min_degree) == (max(a.degree, b.degree), min(a.min_degree, b.min_degree)) and tuple(m.validity) == (-np.inf, np.inf), "attributes")

@contract("C19", 300)
def continuity(c):
    """the converted coefficients keep the radial field continuous across the layer"""
    r = c.rng; nm, cf, ext = make(r); h = float(r.choice([110., r.uniform(50, 500)])); deg = int(nm[:, 0].max()); pl = pole(r)
    cv = LM.convert_external_mio_coeff(deg, nm, cf, h)
    n = nm[:, 0].astype(float); f = -(n / (n + 1)) * (1 + h / 6371.2) ** (2 * n + 1)
    c.note(nm=nm, height=h)
    c.close(cv, cf * f[:, None, None, None], "converted coefficients", rtol=1e-12)
    b = DM(KM(nm, cf, ps_extent=ext, is_internal=False), pl); a = DM(KM(nm, cv, ps_extent=ext), pl); x = orc.rand_point(r, SP, special=False); x[2] = h + 6371.2
    t = float(r.uniform(-1000, 9000)); u, v = b.eval(t, x, f107=100.), a.eval(t, x, f107=100.)
    c.close(u[2], v[2], "radial field across the layer", rtol=1e-8, atol=1e-9 * np.abs(cf).sum() * 300)

@contract("C19", 60)
def files(c):
    """models loaded from a product file use its coefficients, pole, Wolf ratio, extents and height"""
    from c21 import mio_file
    r = c.rng; text, ref = mio_file(r)
    fd, path = tempfile.mkstemp(dir=os.getcwd(), suffix=".txt")
    with os.fdopen(fd, "w") as f: f.write(text)
    try:
        c.note(text=text[:3000]); h = ref["height"]; R = 6371.2 + h; t = r.uniform(0, 9000, 3); x = np.array([orc.rand_point(r, SP, special=False) for _ in range(3)])
        x[:, 2] = [R - 5, R + 5, R]
        i = LM.load_model_swarm_mio_internal(path); e = LM.load_model_swarm_mio_external(path); eb = LM.load_model_swarm_mio_external(path, above_ionosphere=False); ea = LM.load_model_swarm_mio_external(path, above_ionosphere=True)
        n = ref["nm"][:, 0].astype(float); f = (-(n / (n + 1)) * (1 + h / 6371.2) ** (2 * n + 1))[:, None, None, None]
        for k in range(3):
            rf = lambda cf, internal: reference(ref["nm"], cf, ref["ext"], internal, (ref["lat"], ref["lon"]), ref["wolf"], t[k], x[k], SP, SP, 90.)
            kw = dict(rtol=1e-7, atol=1e-9 * 1e3 * np.abs(ref["qs"]).sum())
            wb, wa = rf(ref["qs"], False), rf(ref["qs"] * f, True)
            c.close(i.eval(t[k], x[k], f107=90.), rf(ref["gh"], True), "internal field", **kw); c.close(eb.eval(t[k], x[k], f107=90.), wb, "field below", **kw); c.close(ea.eval(t[k], x[k], f107=90.), wa, "field above", **kw)
            c.close(e.eval(t[k], x[k], f107=90.), wa if k == 1 else wb, "primary field", **kw)
    finally: os.unlink(path)
