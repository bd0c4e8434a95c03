"""Contracts: position of the Sun (C24)."""
from contract import *
from specs import *
from k_geo import Fn, SINr, COSr, ATAN2, const, PI
from k_walk import Walker, View, xyz
import k_geo, k_time
from k_time import fl, days
from cexec import UNDEF

def SQRT(x): return app("SQRT", x)
def pi(): return const(PI)
def wrap(x, lo):
    """x shifted by whole turns to [lo, lo + 2 pi)"""
    t = 2 * pi(); return x - t * real(fl((x - lo) / t))
def ite(c, a, b):
    c = c if not isinstance(c, bool) else z3.BoolVal(c)
    return rt("ite", c, a, b)
APPAX["ATAN2"] = lambda y, x: [cmp("<=", ATAN2(y, x), const(PI) + const(1e-15)), cmp(">=", ATAN2(y, x), real(0) - const(PI) - const(1e-15))]
SMALL = 0.35, 0.46         # range of the obliquity of the ecliptic
def obliquity(te): nu = const(9.282e-4) * te - const(0.8); return const(4.089567e-1) - const(6.19e-9) * te + const(4.46e-5) * COSr(nu), nu
def ecliptic(te):
    """ecliptic longitude and the nutation in longitude"""
    x = const(0.0172019715) * te; s1, c1 = SINr(x), COSr(x)
    s2, c2 = 2 * s1 * c1, c1 * c1 - s1 * s1          # sin 2x, cos 2x
    s3, c3 = s2 * c1 + c2 * s1, c2 * c1 - s2 * s1    # sin 3x, cos 3x
    l = const(1.7527901) + const(1.7202792159e-2) * te + const(3.33024e-2) * s1 - const(2.0582e-3) * c1 + const(3.512e-4) * s2 - const(4.07e-5) * c2 + const(5.2e-6) * s3 - const(9e-7) * c3
    l = l - const(8.23e-5) * s1 * SINr(const(2.92e-5) * te)
    for a, w, p in ((1.27e-5, 1.49e-3, -2.337), (1.21e-5, 4.31e-3, 3.065), (2.33e-5, 1.076e-2, -1.533), (3.49e-5, 1.575e-2, -2.358), (2.67e-5, 2.152e-2, 0.074), (1.28e-5, 3.152e-2, 1.547), (3.14e-5, 2.1277e-1, -0.488)):
        l = l + const(a) * SINr(const(w) * te + const(p))
    d = const(8.34e-5) * SINr(obliquity(te)[1])
    return l + pi() + d, d
def equatorial(t, dtt, lon):
    """t: days since the epoch of the series; (declination, right ascension, hour angle)"""
    return apparent(t, t + dtt / const(86400), lon)
def ra0(te):
    lam = ecliptic(te)[0]; se = SINr(obliquity(te)[0]); return ATAN2(SINr(lam) * SQRT(real(1) - se * se), COSr(lam))
def apparent(t, te, lon, branch=None):
    lam, dlam = ecliptic(te); sl = SINr(lam); se = SINr(obliquity(te)[0]); r = ra0(te)
    ra = ite(cmp("<", r, 0), r + 2 * pi(), r) if branch is None else r + 2 * pi() if branch else r
    h0 = const(1.7528311) + const(6.300388099) * t + lon - ra + const(0.92) * dlam
    return app("ASIN", sl * se), ra, wrap(h0, real(0) - pi())
def horizontal(decl, hang, lat, rad, press, temp):
    """(azimuth, zenith angle): the horizontal coordinates, parallax and refraction"""
    sp, sd, sh, ch = SINr(lat), SINr(decl), SINr(hang), COSr(hang); cp, cd = SQRT(real(1) - sp * sp), SQRT(real(1) - sd * sd)
    se = sp * sd + cp * cd * ch
    el = app("ASIN", se) - SQRT(real(1) - se * se) * rad / const(149597871.0)
    arg = el + const(0.003138) / (el + const(0.08919))
    air = and_(cmp(">", press, 0), cmp(">", el, 0))
    de = ite(air, const(0.08422) * press / ((real(273) + temp) * app("TAN", arg)), real(0)) if air is not False else real(0)
    az0 = ATAN2(sh, ch * sp - sd * cp / cd)
    return wrap(az0, real(0)) - pi(), const(1.5707963267948966) - el - de, (air, arg)
T0 = 43 - 21958
TMAX = 5 * 10**7
class Sun(Fn):
    def opaque(self, e): return e.ex.current is not self
class Equat(Sun):
    """declination, right ascension and hour angle of the Sun"""
    name = "sunpos5equat"; params = ("decl", "rasc", "hang", "mjd2k", "dtt", "lon"); outs = ("decl", "rasc", "hang")
    def pre(self, e): return [("range of times", and_(cmp("<=", -TMAX, e.mjd2k), cmp("<=", e.mjd2k, TMAX), cmp("<=", -TMAX, e.dtt), cmp("<=", e.dtt, TMAX)))]
    def values(self, e):
        if self.opaque(e): return {k: app("sun." + k, *([e.mjd2k, e.dtt, e.lon] if k == "hang" else [e.mjd2k, e.dtt])) for k in self.outs}
        return dict(zip(self.outs, equatorial(e.mjd2k + const(T0), e.dtt, e.lon)))
    def post(self, e):
        out = Fn.post(self, e); v = self.values(e)
        if not self.opaque(e):
            h = v["hang"] = valof(e.ex.load(e.st, ("cell", e.hang.cell, e.hang.path)))
        return out + [("right ascension between 0 and 2 pi", ("prop", and_(cmp(">=", v["rasc"], 0), cmp("<=", v["rasc"], 2 * pi())))),
                      ("hour angle between -pi and pi", ("prop", and_(cmp(">=", v["hang"], -pi()), cmp("<", v["hang"], pi())))),
                      ("the Sun is not above a pole", ("prop", self.nopole(e, v["decl"])))]
    def nopole(self, e, decl):
        claim = cmp("<", SINr(decl) * SINr(decl), 1)
        if self.opaque(e): return claim
        te = e.mjd2k + const(T0) + e.dtt / const(86400); eps = obliquity(te)[0]; u = SINr(ecliptic(te)[0]) * SINr(eps)
        # facts of the sine: below 1 within a quarter of the turn, inverse to the arcsine
        facts = [implies(and_(cmp("<", eps, const(1.57)), cmp(">", eps, const(-1.57))), and_(cmp("<", SINr(eps), 1), cmp(">", SINr(eps), -1))), cmp("==", SINr(app("ASIN", u)), u)]
        return implies(and_(*facts), claim)
APPAX["TAN"] = lambda x: []
class ToHor(Sun):
    """azimuth and zenith angle from the declination, hour angle and latitude"""
    name = "sunpos5eq2hor"; params = ("azimuth", "zenith", "decl", "hang", "lat", "rad", "press", "temp"); outs = ("azimuth", "zenith")
    def pre(self, e):
        air, arg = horizontal(e.decl, e.hang, e.lat, e.rad, e.press, e.temp)[2]
        return [("the direction is not that of a pole", cmp("<", SINr(e.decl) * SINr(e.decl), 1))] + ([] if air is False else [("refraction is defined", implies(air, and_(cmp("!=", e.temp, -273), cmp("!=", app("TAN", arg), 0))))])
    def values(self, e):
        if self.opaque(e): return {k: app("sun." + k, e.decl, e.hang, e.lat, e.rad, e.press, e.temp) for k in self.outs}
        return dict(zip(self.outs, horizontal(e.decl, e.hang, e.lat, e.rad, e.press, e.temp)))
    def post(self, e):
        v = self.values(e); return Fn.post(self, e) + [("azimuth between -pi and pi", ("prop", and_(cmp(">=", v["azimuth"], -pi()), cmp("<=", v["azimuth"], pi()))))]
Equat(); ToHor()

def sunday(year, month, day, hours, neg):
    """days since the epoch of the series: the calendar approximation of the original algorithm; neg: its years before 2000 and 0 are truncated upwards"""
    up = lambda v: 0 - fl(0 - v)
    jf, n2000, n0 = neg; mt = month + 12 * jf; yt = year - jf
    return real((up if n2000 else fl)(const(365.25) * real(yt - 2000)) + fl(const(30.6001) * real(mt + 1)) - (up if n0 else fl)(const(0.01) * real(yt)) + day) + hours / 24 - 21958
class Original(Sun):
    """the original algorithm: the same formulas at the day of the calendar approximation; offset of 1.1574e-5 days per second"""
    name = "sunpos5original"
    outs = ("decl", "rasc", "hang", "azimuth", "zenith"); ints = ("year", "month", "day")
    params = outs + ints + ("hours", "lat", "lon", "rad", "dtt", "press", "temp")
    def build(self, ex, st):
        jf, n, n0 = self.case; y = ivar("year") - jf
        st.assume(and_(cmp("<=" if jf else ">", ivar("month"), 2), cmp("<" if n else ">=", y, 2000), cmp("<" if n0 else ">=", y, 0)))
        return [ivar(k) if k in self.ints else a for k, a in zip(self.params, Fn.build(self, ex, st))]
    def env(self, a):
        e = Fn.env(self, [real(v) if k in self.ints else v for k, v in zip(self.params, a)])
        for k, v in zip(self.params, a):
            if k in self.ints: setattr(e, k, v)
        return e
    def pre(self, e):
        out = [("range of the date", and_(cmp(">=", e.year, -130000), cmp("<=", e.year, 130000), cmp(">=", e.month, 1), cmp("<=", e.month, 12), cmp(">=", e.day, 1), cmp("<=", e.day, 31), cmp(">=", e.hours, 0), cmp("<=", e.hours, 24)))]
        if not self.opaque(e):
            for branch in (True, False):
                d, ra, h = self.first(e, branch)
                if branch: out += [("the direction is not that of a pole", cmp("<", SINr(d) * SINr(d), 1))]
                air, arg = horizontal(d, h, e.lat, e.rad, e.press, e.temp)[2]
                if air is not False: out.append(("refraction is defined", implies(and_(self.west(e) if branch else not_(self.west(e)), air), and_(cmp("!=", e.temp, -273), cmp("!=", app("TAN", arg), 0)))))
        return out
    def cases(self): return [(jf, n, n0) for jf in (1, 0) for n, n0 in ((0, 0), (1, 0), (1, 1))]
    def time(self, e): t = sunday(e.year, e.month, e.day, e.hours, self.case); return t, t + const(1.1574e-5) * e.dtt
    def west(self, e): return cmp("<", ra0(self.time(e)[1]), 0)
    def first(self, e, branch=None): return apparent(*self.time(e), e.lon, branch)
    def values(self, e):
        if self.opaque(e): return {k: app("sun5." + k, *[real(getattr(e, p)) for p in self.params[5:]]) for k in self.outs}
        d, r, h = self.first(e); a, z, _ = horizontal(d, h, e.lat, e.rad, e.press, e.temp)
        return dict(zip(self.outs, (d, r, h, a, z)))
Original()

# ---------------------------------------------------------------- batches
D2R = k_geo.DEG
def R2D(): return real(180) / const(PI)
COORD = ("decl", "rasc", "hang", "azimuth", "zenith")
class SunWalk(Walker):
    """declination, right ascension, hour angle, azimuth and zenith angle in degrees for each time and location"""
    main = "dim"
    def ranks(self, n):          # the dimensions are those of the output without the last one; the inputs may be of a lower rank
        return and_(cmp("<=", 0, n["dim"]), cmp("==", n["out"], n["dim"] + 1), *[and_(cmp("<=", 0, n[v.name]), cmp("<=", n[v.name], n["dim"])) for v in self.views() if v.bcast])
    def arg(self, e, k): return self.cell(e, k) * D2R() if k in ("lat", "lon") else self.cell(e, k)
    def leafpost(self, e):
        v = self.coords(e); return [(k, ("cell", self.outp("out", i), R2D() * v[k])) for i, k in enumerate(COORD)]
def inputs(*names): return tuple(View(k, bcast=True) for k in names)
class SunposW(SunWalk):
    name = "_sunpos"
    params = (View("dim"),) + inputs("mjd", "lat", "lon", "rad", "dtt") + (View("out", 1, COORD, out=True),)
    def leafpre(self, e):
        t, d = self.cell(e, "mjd"), self.cell(e, "dtt"); return [("range of times", and_(*[cmp("<=", -TMAX, x) for x in (t, d)] + [cmp("<=", x, TMAX) for x in (t, d)]))]
    def coords(self, e):
        t, d = self.cell(e, "mjd"), self.cell(e, "dtt"); lat, lon = self.arg(e, "lat"), self.arg(e, "lon")
        v = {"decl": app("sun.decl", t, d), "rasc": app("sun.rasc", t, d), "hang": app("sun.hang", t, d, lon)}
        for k in ("azimuth", "zenith"): v[k] = app("sun." + k, v["decl"], v["hang"], lat, self.cell(e, "rad"), real(0), real(0))      # no refraction
        return v
class OriginalW(SunWalk):
    name = "_sunpos_original"
    params = (View("dim"),) + inputs("mjd", "lat", "lon", "rad", "dtt", "pres", "temp") + (View("out", 1, COORD, out=True),)
    def leafpre(self, e): return [("range of times", and_(cmp(">=", self.cell(e, "mjd"), k_time.DMIN), cmp("<=", self.cell(e, "mjd"), 4 * 10**7)))]
    def coords(self, e):
        t = self.cell(e, "mjd"); z = zr(t); date = [real(iz(k_time.DATEF[k](z))) for k in ("year", "month", "day")]
        a = date + [(t - real(fl(t))) * 24] + [self.arg(e, k) for k in ("lat", "lon", "rad", "dtt", "pres", "temp")]
        return {k: app("sun5." + k, *a) for k in COORD}
SunposW(); OriginalW()
