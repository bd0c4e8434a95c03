from core import contract
import numpy as np, orc, datetime as dt
from eoxmagmod import sunpos
from eoxmagmod.solar_position import sunpos_original
from c23 import sun, dlon
AU = 149597871.0

def inputs(r, n=4, lo=60, hi=40000):
    t = r.uniform(lo, hi, n) if r.random() < .6 else np.round(r.uniform(lo, hi, n)) + r.choice([0., .25, 1e-9, .5], n)
    return t, r.uniform(-90, 90, n), r.uniform(-180, 180, n) if r.random() < .7 else r.choice([0., 180., -180., 90., 359.], n), r.choice([0., 6371.2, 7000., r.uniform(6000, 80000)], n), r.choice([0., 66., r.uniform(-100, 100)], n)

@contract("C24", 1500)
def one_direction(c):
    """the outputs describe one direction: hour angle and longitude, horizontal transformation, ranges"""
    r = c.rng; t, la, lo, ra, dtt = inputs(r, 4, -18000, 40000); c.note(time=t, lat=la, lon=lo, rad=ra, dtt=dtt)
    de, rs, ha, az, ze = sunpos(t, la, lo, ra, dtt); d0, r0, h0, _, _ = sunpos(t, 0 * la, 0 * lo, 0 * ra, dtt)
    c.close(de, d0, "declination depends on the location", rtol=0, atol=1e-12); c.close(rs, r0, "right ascension depends on the location", rtol=0, atol=1e-12)
    c.close(dlon(ha - h0 - lo), 0 * lo, "hour angle minus longitude", rtol=0, atol=1e-8)
    c.require((np.abs(de) <= 23.6).all() and ((rs >= 0) & (rs <= 360)).all() and ((ha >= -180) & (ha <= 180)).all() and ((az >= -180) & (az <= 180)).all() and ((ze >= 0 - 1e-2) & (ze <= 180 + 1e-2)).all(), "ranges", res=(de, rs, ha, az, ze))
    D, H, F = (np.radians(q) for q in (de, ha, la)); s = np.sin(F) * np.sin(D) + np.cos(F) * np.cos(D) * np.cos(H); up = np.arcsin(np.clip(s, -1, 1)); par = np.sqrt(np.maximum(0, 1 - s * s)) * ra / AU
    c.close(np.radians(90 - ze), up - par, "zenith angle", rtol=0, atol=3e-8)
    n = np.cos(F) * np.sin(D) - np.sin(F) * np.cos(D) * np.cos(H); e = -np.cos(D) * np.sin(H); ok = np.hypot(n, e) > 1e-4
    c.close((dlon(az - np.degrees(np.arctan2(e, n))))[ok], 0 * az[ok], "azimuth", rtol=0, atol=1e-7)
    # the right ascension and declination are on the ecliptic
    L = np.degrees(np.arctan2(np.tan(D), np.sin(np.radians(rs)))) % 180.; L = L[np.abs(np.sin(np.radians(rs))) > .02]; c.close(L, 23.44 + 0 * L, "obliquity", rtol=0, atol=.05)

@contract("C24", 1500)
def almanac(c):
    """agreement with an independent low-precision almanac and of the two algorithms"""
    r = c.rng; t, la, lo, ra, dtt = inputs(r); c.note(time=t, lat=la, lon=lo, rad=ra, dtt=dtt); de, rs, ha, az, ze = sunpos(t, la, lo, ra, dtt)
    k = t < 18000; d, l = sun(t); c.close(de[k], d[k], "declination", rtol=0, atol=.03); c.close(dlon(-ha + lo - l)[k], 0 * l[k], "sub-solar longitude", rtol=0, atol=.03)
    o = sunpos_original(t, la, lo, ra, dtt, 0., 20.)
    for a, b, m in zip((de, rs, ha, az, ze), o, ("declination", "right ascension", "hour angle", "azimuth", "zenith angle")):
        F = np.cos(np.radians(la)) > .01; zz = np.sin(np.radians(ze)) > .02
        w = zz if m == "azimuth" else np.ones(len(a), bool)
        c.close(dlon(np.asarray(a) - b)[w], 0 * b[w], "original algorithm: " + m, rtol=0, atol=1e-5 if m != "azimuth" else 1e-3)

@contract("C24", 800)
def continuity(c):
    """continuous in time (midnights, months, years); terrestrial time offset"""
    r = c.rng; t, la, lo, ra, dtt = inputs(r, 4, -18000, 40000); t = np.where(r.random(4) < .5, np.round(t), t); e = 1e-5; c.note(time=t, lat=la, lon=lo)
    f = sunpos_original if False else sunpos; a = f(t - e, la, lo, ra, dtt); b = f(t + e, la, lo, ra, dtt)
    c.close(b[0], a[0], "declination", rtol=0, atol=2e-5); c.close(dlon(b[1] - a[1]), 0 * t, "right ascension", rtol=0, atol=5e-5); c.close(dlon(b[2] - a[2]), 0 * t + 360 * 2 * e, "hour angle", rtol=0, atol=1e-4); c.close(b[4], a[4], "zenith angle", rtol=0, atol=.0073)
    t2 = np.abs(t) + 100; a = sunpos_original(t2 - e, la, lo, ra, dtt, 0., 20.); b = sunpos_original(t2 + e, la, lo, ra, dtt, 0., 20.); c.close(b[0], a[0], "original: declination", rtol=0, atol=2e-5); c.close(dlon(b[2] - a[2]), 0 * t + 360 * 2 * e, "original: hour angle", rtol=0, atol=1e-4)
    # an offset to the terrestrial time moves the Sun but not the Earth's rotation
    d1 = sunpos(t, la, lo, 0., 86400. * 10); d2 = sunpos(t + 10, la, lo, 0., 0.); c.close(d1[0], d2[0], "declination with the time offset", rtol=0, atol=1e-9); c.close(dlon(d1[1] - d2[1]), 0 * t, "right ascension with the time offset", rtol=0, atol=1e-8)
    h0 = sunpos(t, la, lo, 0., 0.); c.close(dlon(d1[2] + d1[1] - h0[2] - h0[1]), 0 * t, "sidereal time with the time offset", rtol=0, atol=.02)

@contract("C24", 300)
def arrays(c):
    """arrays equal element-wise evaluation, defaults, broadcasting of scalars, shape mismatches"""
    r = c.rng; t, la, lo, ra, dtt = inputs(r, 6); c.note(time=t, lat=la, lon=lo, rad=ra, dtt=dtt)
    for f, ex in ((sunpos, ()), (sunpos_original, (r.choice([0., 1.], 6), r.uniform(-10, 30, 6)))):
        args = [t, la, lo, ra, dtt, *ex]; one = np.array([[float(q) for q in f(*[a[k] for a in args])] for k in range(6)]).T
        c.same(np.array(f(*args)), one, "element-wise"); c.same(np.array(f(*[orc.odd_layout(r, a.reshape(2, 3)) for a in args])).reshape(5, 6), one, "2D arrays")
        for k in range(len(args)):
            z = [a[2] if j == k else a for j, a in enumerate(args)]; c.same(np.array(f(*z)), np.array([[float(q) for q in f(*[a if np.ndim(a) == 0 else a[i] for a in z])] for i in range(6)]).T, "scalar argument %d" % k)
            z[k] = np.ones(5); c.raises(lambda: f(*z), "mismatching shape of argument %d" % k)
        z = [a[0] for a in args]; z[1] = la; c.same(np.array(f(*z))[0], np.full(6, one[0, 0]), "only one array")
    c.same(np.array(sunpos(t, la, lo)), np.array(sunpos(t, la, lo, 6371.2, 0.)), "defaults"); c.same(np.array(sunpos_original(t, la, lo)), np.array(sunpos_original(t, la, lo, 6371.2, 0., 1., 20.)), "defaults of the original")
    z0, z1 = sunpos_original(t, la, lo, ra, dtt, 0., 20.)[4], sunpos_original(t, la, lo, ra, dtt, 1., 20.)[4]
    c.require(((z0 - z1 >= -1e-12) & (z0 - z1 < 1)).all() and (z0[z0 > 91] == z1[z0 > 91]).all(), "refraction lifts the Sun above the horizon only", res=(z0, z1))
