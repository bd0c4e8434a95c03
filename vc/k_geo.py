"""Contracts: coordinate conversions (C10), planar rotation and norms (C11)."""
from contract import *
from specs import *
from cexec import UNDEF

def SINr(x): return app("SIN", x)
def COSr(x): return app("COS", x)
def SQ2(*v):
    s = v[0] * v[0]
    for x in v[1:]: s = s + x * x
    return app("SQRT", s)
def ATAN2(y, x): return app("ATAN2", y, x)
def const(x): return rt("const", frac(x))
PI = 3.141592653589793; M_1_PI = 0.3183098861837907
def DEG(): return const(PI) / const(180.0)             # the double nearest to pi, over 180
def RAD(): return const(180.0) * const(M_1_PI)
WGS84_A, WGS84_B = 6378.137, 6356.7523142
def A_(): return const(WGS84_A)
def E2_(): return real(1) - (const(WGS84_B) * const(WGS84_B)) / (const(WGS84_A) * const(WGS84_A))

class Fn(Contract):
    """a function of doubles; outs: names of the output parameters (in the order of the parameters)"""
    ntrace = 0; cellouts = True
    params = ()
    outs = ()
    def build(self, ex, st):
        out = []
        for k in self.params:
            if k in self.outs: st.cells[("out", k)] = UNDEF; out.append(Ref(("out", k)))
            else: out.append(rvar(k))
        return out
    def env(self, a):
        e = Env()
        for k, v in zip(self.params, a): setattr(e, k, v if k in self.outs else valof(v))
        e.nan = False
        for k, v in zip(self.params, a):
            if k not in self.outs and nanof(v) is not False: e.nan = nanof(v) if e.nan is False else or_(e.nan, nanof(v))
        return e
    def mods(self, e): return [getattr(e, k) for k in self.outs]
    def post(self, e):
        v = self.values(e)
        if e.nan is not False: e.ex.oblige(e.st, "nan", "%s: arguments are not NaN" % self.name, not_(e.nan))
        out = []
        for k in v:
            val = v[k]
            out.append((k, ("ret", val)) if k == "ret" else (k, ("cell", getattr(e, k), val)))
        return out

class Rot2d(Fn):
    """rotation by the angle a"""
    name = "rot2d"; params = ("xo", "yo", "x", "y", "s", "c"); outs = ("xo", "yo")
    def values(self, e): return {"xo": e.x * e.c - e.y * e.s, "yo": e.x * e.s + e.y * e.c}
class Norm3d(Fn):
    name = "norm3d"; params = ("x", "y", "z")
    def values(self, e): return {"ret": SQ2(e.x, e.y, e.z)}
class Norm2d(Fn):
    name = "norm2d"; params = ("x", "y")
    def values(self, e): return {"ret": SQ2(e.x, e.y)}

class ToMeridian(Fn):
    """cylindrical coordinates of the point at the height elv on the normal of the ellipsoid (lemma 'ellipsoid')"""
    name = "_geodetic2geocentric"; params = ("rxy", "z", "lat", "elv", "a", "e2"); outs = ("rxy", "z")
    def pre(self, e): return [("eccentricity", and_(cmp(">=", e.e2, 0), cmp("<", e.e2, 1)))]
    def values(self, e): x, z = meridian(e.lat, e.elv, e.a, e.e2); return {"rxy": x, "z": z}
def meridian(lat, elv, a, e2):
    rc = a / app("SQRT", real(1) - e2 * SINr(lat) * SINr(lat))
    return (rc + elv) * COSr(lat), (rc * (real(1) - e2) + elv) * SINr(lat)
def ferrari(p, z, a, e2):
    """factor kp: the geodetic latitude is the direction of (p, z kp) (lemma 'ferrari')"""
    P2 = p / a * (p / a); Q = (real(1) - e2) * (z / a) * (z / a); e4 = e2 * e2
    r = (P2 + Q - e4) / 6; s = Q * e4 * P2 / 4; r3 = r * r * r
    t3 = r3 + s + app("SQRT", s * (s + 2 * r3))
    t = app("CBRT", t3); u = r + t + r * r / t
    v = app("SQRT", u * u + e4 * Q)
    w = e2 * (u + v - Q) / (2 * v)
    return real(1) + e2 * (app("SQRT", u + v + w * w) + w) / (u + v)
class FromMeridian(Fn):
    """geodetic latitude and height from the cylindrical coordinates: the inverse of _geodetic2geocentric (lemma 'ferrari')"""
    name = "_geocentric2geodetic"; params = ("lat", "elv", "p", "z", "a", "e2"); outs = ("lat", "elv")
    def pre(self, e):
        return [("eccentricity", and_(cmp(">", e.e2, 0), cmp("<", e.e2, 1))), ("ellipsoid", cmp(">", e.a, 0)), ("outside of the evolute", P.Pos(e.p / e.a * (e.p / e.a) + (real(1) - e.e2) * (e.z / e.a) * (e.z / e.a) - e.e2 * e.e2))]
    def values(self, e): lat, h = geodetic(e.p, e.z, e.a, e.e2); return {"lat": lat, "elv": h}
def geodetic(p, z, a, e2):
    kp = ferrari(p, z, a, e2)
    return ATAN2(z * kp, p), SQ2(p, z * kp) * (real(1) / kp - (real(1) - e2)) / e2
class GeodToCart(Fn):
    name = "geodetic2geocentric_cart"; params = ("x", "y", "z", "lat", "lon", "elv", "a", "e2"); outs = ("x", "y", "z")
    pre = ToMeridian.pre
    def values(self, e):
        p, z = meridian(DEG() * e.lat, e.elv, e.a, e.e2); l = DEG() * e.lon
        return {"x": p * COSr(l), "y": p * SINr(l), "z": z}
class GeodToSph(Fn):
    name = "geodetic2geocentric_sph"; params = ("r", "th", "ph", "lat", "lon", "elv", "a", "e2"); outs = ("r", "th", "ph")
    pre = ToMeridian.pre
    def values(self, e):
        p, z = meridian(DEG() * e.lat, e.elv, e.a, e.e2)
        return {"r": SQ2(p, z), "th": ATAN2(z, p), "ph": DEG() * e.lon}
class SphToCart(Fn):
    name = "sph2cart"; params = ("x", "y", "z", "r", "th", "ph"); outs = ("x", "y", "z")
    def values(self, e): return {"x": e.r * COSr(e.th) * COSr(e.ph), "y": e.r * COSr(e.th) * SINr(e.ph), "z": e.r * SINr(e.th)}
class CartToSph(Fn):
    name = "cart2sph"; params = ("r", "th", "ph", "x", "y", "z"); outs = ("r", "th", "ph")
    def pre(self, e): return [("not the centre", cmp(">", e.x * e.x + e.y * e.y + e.z * e.z, 0))]
    def values(self, e): r = SQ2(e.x, e.y, e.z); return {"r": r, "th": app("ASIN", e.z / r), "ph": ATAN2(e.y, e.x)}
class CartToGeod(Fn):
    name = "geocentric_cart2geodetic"; params = ("lat", "lon", "elv", "x", "y", "z", "a", "e2"); outs = ("lat", "lon", "elv")
    def pre(self, e): return FromMeridian.pre(self, Env(p=SQ2(e.x, e.y), z=e.z, a=e.a, e2=e.e2))
    def values(self, e):
        lat, h = geodetic(SQ2(e.x, e.y), e.z, e.a, e.e2)
        return {"lat": RAD() * lat, "lon": RAD() * ATAN2(e.y, e.x), "elv": h}
class SphToGeod(Fn):
    name = "geocentric_sph2geodetic"; params = ("lat", "lon", "elv", "r", "th", "ph", "a", "e2"); outs = ("lat", "lon", "elv")
    def pre(self, e): return FromMeridian.pre(self, Env(p=e.r * COSr(e.th), z=e.r * SINr(e.th), a=e.a, e2=e.e2))
    def values(self, e):
        lat, h = geodetic(e.r * COSr(e.th), e.r * SINr(e.th), e.a, e.e2)
        return {"lat": RAD() * lat, "lon": RAD() * e.ph, "elv": h}
# ---------------------------------------------------------------- conversions of degrees
MINR = 1000
class Conv(Fn):
    """conversion of a point between two coordinate systems (angles in degrees)"""
    outs = ("x1", "y1", "z1"); params = ("x1", "y1", "z1", "x0", "y0", "z0")
    fn = None
    def values(self, e): return dict(zip(self.outs, self.fn(e.x0, e.y0, e.z0)))
def far(p2, z):           # the squared distance from the centre
    return [("radius above 1000 km", cmp(">=", p2 + z * z, MINR * MINR))]
class Ident(Conv):
    name = "conv_identity"
    fn = lambda self, x, y, z: (x, y, z)
class GeodCart(Conv):
    name = "conv_WGS84_to_cartECEF"
    def fn(self, lat, lon, h):
        p, z = meridian(DEG() * lat, h, A_(), E2_()); return p * COSr(DEG() * lon), p * SINr(DEG() * lon), z
class GeodSph(Conv):
    name = "conv_WGS84_to_sphECEF"
    def fn(self, lat, lon, h):
        p, z = meridian(DEG() * lat, h, A_(), E2_()); return RAD() * ATAN2(z, p), RAD() * (DEG() * lon), SQ2(p, z)
class CartSph(Conv):
    name = "conv_cartECEF_to_sphECEF"
    def pre(self, e): return far(e.x0 * e.x0 + e.y0 * e.y0, e.z0)
    def fn(self, x, y, z): r = SQ2(x, y, z); return RAD() * app("ASIN", z / r), RAD() * ATAN2(y, x), r
class CartGeod(Conv):
    name = "conv_cartECEF_to_WGS84"
    def pre(self, e): return far(e.x0 * e.x0 + e.y0 * e.y0, e.z0)
    def fn(self, x, y, z): lat, h = geodetic(SQ2(x, y), z, A_(), E2_()); return RAD() * lat, RAD() * ATAN2(y, x), h
class SphCart(Conv):
    name = "conv_sphECEF_to_cartECEF"
    def fn(self, lat, lon, r):
        t, l = DEG() * lat, DEG() * lon; return r * COSr(t) * COSr(l), r * COSr(t) * SINr(l), r * SINr(t)
class SphGeod(Conv):
    name = "conv_sphECEF_to_WGS84"
    def pre(self, e): t = DEG() * e.x0; return far(e.z0 * COSr(t) * (e.z0 * COSr(t)), e.z0 * SINr(t))
    def fn(self, lat, lon, r):
        t = DEG() * lat; la, h = geodetic(r * COSr(t), r * SINr(t), A_(), E2_()); return RAD() * la, RAD() * (DEG() * lon), h
CONV = [["conv_identity", "conv_WGS84_to_sphECEF", "conv_WGS84_to_cartECEF"],
        ["conv_sphECEF_to_WGS84", "conv_identity", "conv_sphECEF_to_cartECEF"],
        ["conv_cartECEF_to_WGS84", "conv_cartECEF_to_sphECEF", "conv_identity"]]        # [from][to]: 0 geodetic, 1 spherical, 2 Cartesian
Ident(); GeodCart(); GeodSph(); CartSph(); CartGeod(); SphCart(); SphGeod()
Rot2d(); Norm3d(); Norm2d(); ToMeridian(); FromMeridian(); GeodToCart(); GeodToSph(); SphToCart(); CartToSph(); CartToGeod(); SphToGeod()
