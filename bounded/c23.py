from core import contract
import numpy as np, orc, os, shutil, tempfile
from eoxmagmod import eval_qdlatlon, eval_qdlatlon_with_base_vectors, eval_mlt, eval_subsol, sunpos
from eoxmagmod.data import APEX_2020, APEX_2025, APEX_2015, APEX_LATEST
from eoxmagmod import mjd2000_to_decimal_year as m2d
def dlon(a): return (np.asarray(a) + 180.) % 360. - 180.

def close_ang(c, a, b, msg, tol): c.close(dlon(np.asarray(a) - np.asarray(b)), np.zeros(np.shape(b)), msg, rtol=0, atol=tol, a=a, b=b)

@contract("C23", 8)
def qd_points(c):
    """arrays equal element-wise evaluation; the coordinates do not depend on other points or earlier calls"""
    r = c.rng; n = 6
    la, lo, ra = r.uniform(-89, 89, n), r.uniform(-180, 180, n), r.uniform(6371.2, 7200, n); yr = r.choice(np.arange(1998, 2024.5, .5), n)
    if c.i % 3 == 0: yr[:3] = yr[0]; yr[3:] = yr[3] if yr[3] != yr[0] else yr[3] + 2
    if c.i % 3 == 1: yr[:] = yr[0]
    c.note(lat=la, lon=lo, rad=ra, time=yr)
    one = np.array([eval_qdlatlon_with_base_vectors(la[k], lo[k], ra[k], yr[k]) for k in range(n)], dtype=float).T
    p = r.permutation(n)
    for sel in (np.arange(n), p):
        q = np.array(eval_qdlatlon(la[sel], lo[sel], ra[sel], yr[sel])); v = np.array(eval_qdlatlon_with_base_vectors(la[sel], lo[sel], ra[sel], yr[sel]))
        c.close(q[0], one[0, sel], "qd latitude", rtol=0, atol=2e-4); close_ang(c, q[1], one[1, sel], "qd longitude", 1e-3); c.close(v[0], one[0, sel], "qd latitude (vectors)", rtol=0, atol=2e-4); close_ang(c, v[1], one[1, sel], "qd longitude (vectors)", 1e-3)
        c.close(v[2:], one[2:][:, sel], "base vectors", rtol=1e-3, atol=1e-3)
    c.close(one[6], np.abs(one[2] * one[5] - one[3] * one[4]), "F = |F1 x F2|", rtol=1e-4, atol=1e-4)
    c.require((np.abs(one[0]) <= 90).all() and (np.abs(one[1]) <= 180).all(), "ranges")
    z = eval_qdlatlon(la[1], lo[1] + 360, ra[1], yr[1]); c.close(z[0], one[0, 1], "full turn", rtol=0, atol=1e-3)
    for i in range(n): # neighbourhood: gradient consistent with the base vectors is not required, only continuity
        w = eval_qdlatlon(la[i] + 1e-3, lo[i], ra[i], yr[i]); c.close(w[0], one[0, i], "continuity", rtol=0, atol=.02)

@contract("C23", 6)
def qd_model_time(c):
    """different epochs and coefficient files give their own values, restored by repeating the call"""
    r = c.rng; la, lo, ra = r.uniform(-60, 60), r.uniform(-180, 180), 6800.; a = [float(q) for q in eval_qdlatlon(la, lo, ra, 2000.)]; b = [float(q) for q in eval_qdlatlon(la, lo, ra, 2015.)]
    c.note(lat=la, lon=lo)
    c.require(a != b, "the time has no effect"); c.same([float(q) for q in eval_qdlatlon(la, lo, ra, 2000.)], a, "repeated call")
    d = [float(q) for q in eval_qdlatlon(la, lo, ra, 2000., APEX_2015)]; c.same([float(q) for q in eval_qdlatlon(la, lo, ra, 2000.)], a, "after a call with another file")
    m = np.array(eval_qdlatlon([la] * 3, [lo] * 3, [ra] * 3, [2000., 2015., 2000.])); c.close(m[0], [a[0], b[0], a[0]], "mixed times", rtol=0, atol=1e-4); close_ang(c, m[1], [a[1], b[1], a[1]], "mixed times", 1e-3)
    c.close(d[0], a[0], "files of the same model agree", rtol=0, atol=.3)
    x = tempfile.mkdtemp(dir=os.getcwd()); y = os.path.join(x, *["d" * 100] * int(r.integers(1, 5))); os.makedirs(y); p = os.path.join(y, "apex.txt"); os.symlink(APEX_LATEST, p)
    try:
        for f in (eval_qdlatlon, eval_qdlatlon_with_base_vectors): c.same([float(q) for q in f(la, lo, ra, 2000., p)][:2], a, "long path of the coefficients file")
    finally: shutil.rmtree(x)
    c.raises(lambda: eval_qdlatlon(la, lo, ra, 2000., "/nonexistent/file"), "missing file", exc=IOError)

def date_fields(t):
    import datetime as dt
    d = dt.datetime(2000, 1, 1) + dt.timedelta(days=float(t)); return d

def sun(t):
    """low precision Sun (Astronomical Almanac), sub-solar latitude and longitude"""
    n = t - .5; L = np.radians((280.460 + .9856474 * n) % 360); g = np.radians((357.528 + .9856003 * n) % 360); lam = L + np.radians(1.915 * np.sin(g) + .020 * np.sin(2 * g)); eps = np.radians(23.439 - 4e-7 * n)
    ra = np.degrees(np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam))); de = np.degrees(np.arcsin(np.sin(eps) * np.sin(lam))); gmst = (280.46061837 + 360.98564736629 * n) % 360
    return de, dlon(ra - gmst)

@contract("C23", 800)
def subsol(c):
    """the sub-solar point follows the date and time of day continuously, also before 2000"""
    r = c.rng; t = float(r.uniform(-18000, 18000)); k = c.i % 5
    if k == 0: t = float(np.floor(t)) + float(r.choice([0., 1e-6, 1 - 1e-6, .5]))
    if k == 1:
        from c12 import start
        t = start(int(r.integers(1951, 2050))) + float(r.choice([0., .25, -.25, -1e-5, 1e-5, 59, 60., 58.9]))
    c.note(time=t); la, lo = eval_subsol(t); de, ll = sun(t)
    c.close(la, de, "latitude", rtol=0, atol=.05); close_ang(c, lo, ll, "longitude", .05)
    la2, lo2 = eval_subsol(t + 1e-3); c.close(la2, la, "continuity of the latitude", rtol=0, atol=2e-3); close_ang(c, lo2, lo - .36, "continuity of the longitude", 5e-3)
    d, ra, h, az, ze = sunpos(t, 0, 0, rad=0); c.close(la, d, "agreement with the other Sun model (latitude)", rtol=0, atol=.05); close_ang(c, lo, -float(h), "agreement with the other Sun model (longitude)", .05)

@contract("C23", 200)
def mlt(c):
    """magnetic local time: 24 hours per turn, element-wise, noon at the sub-solar dipole longitude"""
    r = c.rng; n = 5; q = r.uniform(-180, 180, n); t = r.uniform(-9000, 9000, n)
    if c.i % 3 == 0: t[:] = np.floor(t[0]) + float(r.choice([0., .3]))
    if c.i % 3 == 1: t[:2] = t[0]; t[2:] = t[2]
    c.note(qdlon=q, time=t); h = lambda a: (np.asarray(a) + 12) % 24 - 12
    m = eval_mlt(q, t); one = np.array([float(eval_mlt(a, b)) for a, b in zip(q, t)])
    c.require(((m >= 0) & (m < 24 + 1e-4)).all(), "range", res=m)
    c.close(h(m - one), np.zeros(n), "element-wise", rtol=0, atol=2e-4)
    s = r.uniform(-180, 180, n); c.close(h(eval_mlt(q + s, t) - m - s / 15), np.zeros(n), "24 hours per turn", rtol=0, atol=3e-4); p = r.permutation(n); c.close(h(eval_mlt(q[p], t[p]) - one[p]), np.zeros(n), "permuted", rtol=0, atol=2e-4)
    # about 24 hours per day of universal time; continuity over the day and year boundaries
    e = 1e-3; c.close(h(eval_mlt(q, t + e) - one - 24 * e), np.zeros(n), "continuity in time", rtol=0, atol=.012)
    c.close(h(eval_mlt(q, np.round(t) + 1e-4) - eval_mlt(q, np.round(t) - 1e-4) - .0048), np.zeros(n), "continuity over the day boundary", rtol=0, atol=.004)
    # dipole oracle
    la, lo = eval_subsol(t)
    for k in range(n):
        pl = (80.2, -72.) ; w = None
        x = np.asarray(orc.sph_to_cart(la[k], lo[k], 1.), dtype=float); from_pole = np.asarray(orc.nec_basis(*pl), dtype=float)
        phi = np.degrees(np.arctan2(-(-x @ from_pole[1]) , -(x @ from_pole[0]))); c.close(h(one[k] - (12 + (q[k] - phi) / 15)), 0, "dipole longitude of the Sun", rtol=0, atol=1.)

@contract("C23", 60)
def shapes(c):
    """shapes are preserved and mismatches rejected"""
    r = c.rng; n = int(r.integers(1, 5)); a = r.uniform(-60, 60, n); t = r.uniform(0, 5000, n); x = np.full(n, 6800.); y = np.full(n, 2010.)
    for f, args in ((eval_qdlatlon, (a, a, x, y)), (eval_qdlatlon_with_base_vectors, (a, a, x, y)), (eval_mlt, (a, t)), (eval_subsol, (t,))):
        res = f(*args); res = res if isinstance(res, tuple) else (res,); c.require(all(q.shape == (n,) for q in res), "shape of arrays")
        sc = f(*[q[0] for q in args]); sc = sc if isinstance(sc, tuple) else (sc,); c.require(all(np.shape(q) == () for q in sc), "shape of scalars"); c.close(np.array(sc, dtype=float), [q[0] for q in res], "scalar", rtol=1e-4, atol=1e-3)
        st = f(*[np.repeat(q, 2)[::2] for q in args]); st = st if isinstance(st, tuple) else (st,)
        for u, v in zip(st, res): c.same(u, v, "strided input")
        em = f(*[q[:0] for q in args]); em = em if isinstance(em, tuple) else (em,); c.require(all(q.shape == (0,) for q in em), "empty")
        if len(args) > 1:
            for k in range(len(args)):
                for b in (np.ones(n + 1) * args[k][0], args[k][0] if n > 0 else None, np.ones((n, 1)) * args[k][0]):
                    z = list(args); z[k] = b; c.raises(lambda: f(*z), "mismatching shapes of argument %d" % k)
