"""Python functions: magnetic universal time (C25), wrappers of the position of the Sun (C24)."""
import pyvc as V
from pyvc import *

def sunfn(name):
    """contract of the walkers _sunpos, _sunpos_original (C24): five functions of the time, the point and the offset, element by element"""
    def call(time, lat, lon, rad, dtt, *more):
        args = [asarray(x) for x in (time, lat, lon, rad, dtt) + more]
        shape = broadcast_leading(args)
        fs = [prefix(a) for a in args]
        def f(idx):
            c = idx[-1]
            if not isinstance(c, int): unsup("symbolic output number")
            return fapp("%s%d" % (name, c), *[g(idx[:-1]) for g in fs])
        return A(f, tuple(shape) + (5,))
    return call
def broadcast_leading(args):
    """scalars go with any shape; the arrays have one shape (the axes of those of fewer dimensions are the leading ones)"""
    big = max(args, key=lambda a: a.ndim)
    for a in args:
        for n, m in zip(a.shape, big.shape):
            if not sameext(n, m): raise ValueError("array shape mismatch")
    return big.shape
def prefix(a):
    f = a.snap(); r = a.ndim; return lambda idx: f(idx[:r])
STUBS["eoxmagmod._pysunpos"] = stub("eoxmagmod._pysunpos", sunpos=sunfn("SUN"), sunpos_original=sunfn("SUNO"))

def sun5(name, *a): return [fapp("%s%d" % (name, c), *a) for c in range(5)]
NEEDED = {0: "declination", 1: "right ascension", 2: "hour angle", 3: "azimuth", 4: "zenith"}
def sunpos_wrappers(res, budget):
    """the tuple of the outputs in their order; the parameters reach the algorithm in their places, with the stated defaults"""
    def body(fname, ext, r, given):
        m = load("eoxmagmod.solar_position"); shape, g = extents(r)
        base = ["time", "lat", "lon", "rad", "dtt"] + (["pres", "temp"] if ext else [])
        default = {"rad": 6371.2, "dtt": 0, "pres": 1.0, "temp": 20.0}
        args = [arr(k, shape) for k in base[:3 + given]]
        out = getattr(m, fname)(*args)
        if not isinstance(out, (tuple, list)) or len(out) != 5: fail("post", "five outputs", "%r" % (out,)); return
        vals = [a.elem(g) for a in args] + [lift(default[k]) for k in base[3 + given:]]
        want = sun5("SUNO" if ext else "SUN", *vals)
        for c in range(5):
            if same_shape("shape of the output", out[c], shape): same("%s is the output %d of the algorithm" % (NEEDED[c], c), out[c].elem(g), want[c])
    for fname, ext in (("sunpos", False), ("sunpos_original", True)):
        verify(res, "solar_position." + fname, [("rank %d, %d optional arguments" % (r, k), (fname, ext, r, k)) for r in range(3) for k in range(0, 5 if ext else 3)], body)

def mut(t, lat_ngp, lon_ngp, lat, lon):
    """twelve hours minus the dipole longitude of the noon-facing direction: 12 - 12/pi atan2(cos(d) sin(D), sin(p) cos(d) cos(D) - cos(p) sin(d))"""
    deg = real(rt("const", frac(math.pi))) / real(180)
    s = lambda x: app("SIN", x * deg); c = lambda x: app("COS", x * deg)
    d = lon.v - lon_ngp.v
    y = c(lat.v) * s(d); x = s(lat_ngp.v) * c(lat.v) * c(d) - c(lat_ngp.v) * s(lat.v)
    n = False
    for v in (lat, lon, lat_ngp, lon_ngp): n = or_(n, v.n)
    return R(real(12) - real(12) / rt("const", frac(math.pi)) * app("ATAN2", y, x), n)
def magnetic_time(res, budget):
    """mjd2000_to_magnetic_universal_time: the formula at the given sub-solar point, or at that of the Sun model if a coordinate is missing"""
    def body(r, rp, lat, lon):
        m = load("eoxmagmod.magnetic_time"); shape, g = extents(r)
        t = arr("t", shape); pole = [arr(k, shape[:rp]) if rp else R(rvar(k)) for k in ("lat_ngp", "lon_ngp")]
        sol = {k: arr(k, shape) for k, on in (("lat_sol", lat), ("lon_sol", lon)) if on}
        out = asarray(m.mjd2000_to_magnetic_universal_time(t, *pole, **sol))
        if not same_shape("shape", out, shape): return
        p = [asarray(x).elem(g if rp else ()) for x in pole]
        if lat and lon: ls, os_ = sol["lat_sol"].elem(g), sol["lon_sol"].elem(g)
        else:
            s = sun5("SUN", t.elem(g), R(real(0)), R(real(0)), R(real(0)), R(real(0))); ls, os_ = s[0], op1("*", -1, s[2])
        same("hours from the dipole midnight of the sub-solar point", out.elem(g), mut(t, *[rv(x) for x in p], ls, os_))
    verify(res, "magnetic_time.mjd2000_to_magnetic_universal_time",
           [("rank %d, pole of rank %d%s%s" % (r, rp, ", lat_sol" if a else "", ", lon_sol" if b else ""), (r, rp, a, b)) for r in range(3) for rp in sorted({0, r}) for a in (0, 1) for b in (0, 1)], body)
    def sub(r):
        m = load("eoxmagmod.magnetic_time"); shape, g = extents(r); t = arr("t", shape)
        a, b = m.get_subsol(t); s = sun5("SUN", t.elem(g), R(real(0)), R(real(0)), R(real(0)), R(real(0)))
        same("latitude: the declination", asarray(a).elem(g), s[0]); same("longitude: the Greenwich hour angle reversed", asarray(b).elem(g), op1("*", -1, s[2]))
    verify(res, "magnetic_time.get_subsol", [("rank %d" % r, (r,)) for r in range(3)], sub)
