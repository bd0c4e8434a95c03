from core import contract
import numpy as np, datetime as dt
from fractions import Fraction as Fr
from eoxmagmod import time_util as T
d2m, m2d, m2f = T.decimal_year_to_mjd2000, T.mjd2000_to_decimal_year, T.mjd2000_to_year_fraction

def jdn(y, m, d):
    """Julian day number at noon, Julian calendar until 1582-10-04, Gregorian afterwards (Meeus)"""
    greg = (y, m, d) >= (1582, 10, 15)
    if m < 3: y, m = y - 1, m + 12
    b = 2 - y // 100 + y // 400 if greg else 0
    return (1461 * (y + 4716)) // 4 + (306001 * (m + 1)) // 10000 + d + b - 1524
J2K = jdn(2000, 1, 1)
def start(y): return jdn(y, 1, 1) - J2K
def length(y):
    return start(y + 1) - start(y)
def leap(y): return y % 4 == 0 and (y <= 1582 or y % 100 != 0 or y % 400 == 0)

def years(c):
    r = c.rng
    return int(r.choice([r.integers(-4711, 1582), r.integers(1583, 2400), r.integers(1583, 10000), r.integers(1900, 2100), 2000, 1900, 1600, 1700, 2100, 4, -4, 0, 1581, 1583, 1584, 1999, 2001]))

@contract("C12", 4000)
def decimal_year_value(c):
    """decimal year = calendar year + elapsed fraction of the actual year length; fraction; inverse"""
    r = c.rng; y = years(c); n = length(y)
    if y == 1582: y = 1583; n = 365
    c.require(n == (366 if leap(y) else 365), "oracle")
    k = int(r.integers(0, n)); f = float(r.choice([0., 0.5, .25, r.random(), 1 - 2**-20, 2**-20]))
    if c.i % 5 == 0: k, f = [(0, 0.), (n - 1, 1 - 2**-22), (0, 2**-22), (58, .5), (59, .5), (n - 1, 0.)][c.i // 5 % 6]
    m = start(y) + k + f
    c.note(mjd2000=m, year=y)
    want = y + float(Fr(m) - start(y)) / n
    ulp = 2.0 ** -52 * max(abs(y), 1)
    c.close(m2d(m), want, "decimal year", rtol=0, atol=3e-12 + 4 * ulp)
    c.close(m2f(m), float(Fr(m) - start(y)) / n, "year fraction", rtol=0, atol=3e-12)
    c.require(0 <= float(m2f(m)) < 1, "fraction range", res=float(m2f(m)))
    c.require(y <= float(m2d(m)) and (float(m2d(m)) < y + 1 or f > .9999), "year of the decimal year", res=float(m2d(m)))
    c.close(d2m(m2d(m)), m, "inverse", rtol=0, atol=3e-9 + 800 * ulp)

@contract("C12", 3000)
def to_mjd2000(c):
    """decimal year to MJD2000: year start plus the fraction times the length, continuous and increasing"""
    r = c.rng; y = years(c)
    if y == 1582: y = 1584
    n = length(y); f = float(r.choice([0., .5, r.random(), 1 - 2**-12, 2**-12]))
    x = y + f; f = float(Fr(x) - y)
    c.note(decimal_year=x)
    ulp = 2.0 ** -52 * max(abs(y), 1)
    c.close(d2m(x), start(y) + f * n, "mjd2000", rtol=0, atol=3e-9 + 400 * ulp)
    c.close(d2m(float(y)), start(y), "start of year", rtol=0, atol=0)
    lo, hi = np.nextafter(float(y), -1e9), np.nextafter(float(y), 1e9)
    a, b, d = float(d2m(lo)), float(d2m(float(y))), float(d2m(hi))
    if y != 1583:
        c.require(a <= b <= d and b - a < 1e-7 + 800 * ulp and d - b < 1e-7 + 800 * ulp, "continuity at the year boundary", res=(a, b, d))
    if y == 1583: return
    a, b, d = float(m2d(start(y) - 2. ** -20)), float(m2d(float(start(y)))), float(m2d(start(y) + 2. ** -20))
    c.require(a < b < d and d - a < 1e-8, "continuity of the decimal year", res=(a, b, d))
    c.same(b, float(y), "decimal year at the year start")

@contract("C12", 600)
def monotone(c):
    """strictly increasing on random ordered times"""
    r = c.rng; y = years(c)
    t = np.unique(np.round((start(y) + r.uniform(-800, 800, 60)) * 1024) / 1024)
    t = t[t > -2451545 + 400]
    bad = (t > start(1582) - 1) & (t < start(1583) + 1)
    t = t[~bad]
    c.note(t=t)
    v = m2d(t)
    c.require((np.diff(v) > 0).all(), "decimal year is not increasing", res=v)
    x = np.unique(np.round(v * 2 ** 16) / 2 ** 16); c.require((np.diff(d2m(x)) > 0).all(), "mjd2000 is not increasing")
    c.same(v, [float(m2d(q)) for q in t], "element-wise"); c.same(d2m(v), [float(d2m(q)) for q in v], "element-wise inverse"); c.same(m2f(t), [float(m2f(q)) for q in t], "element-wise fraction")
    c.close(m2f(t), v - np.floor(v), "fraction is the part of the decimal year", rtol=0, atol=1e-11)

@contract("C12", 1500)
def datelib(c):
    """agreement with the datetime module (proleptic Gregorian)"""
    r = c.rng; y = int(r.integers(1583, 9999))
    d = dt.datetime(y, 1, 1) + dt.timedelta(days=int(r.integers(0, length(y))), seconds=int(r.integers(0, 86400)), microseconds=int(r.integers(0, 10**6)))
    m = (d - dt.datetime(2000, 1, 1)); m = m.days + (m.seconds + m.microseconds * 1e-6) / 86400.
    c.note(date=str(d))
    c.close(m2d(m), T.datetime_to_decimal_year(d), "datetime_to_decimal_year", rtol=0, atol=1e-11)
    tot = (dt.datetime(y + 1, 1, 1) - dt.datetime(y, 1, 1)).total_seconds()
    c.close(T.datetime_to_decimal_year(d), y + (d - dt.datetime(y, 1, 1)).total_seconds() / tot, "decimal year of a datetime", rtol=0, atol=2e-12)
    c.close(d2m(T.datetime_to_decimal_year(d)), m, "mjd2000 of a datetime", rtol=0, atol=2e-8)
    s = r.normal(size=3) * 1e4
    c.close(T.mjd2000_to_decimal_year_simple(s), 2000 + s / 365.25, "simple", rtol=1e-15)
    c.close(T.decimal_year_to_mjd2000_simple(2000 + s / 365.25), s, "simple inverse", rtol=0, atol=1e-8)
    q = s / 365.25; c.close(T.mjd2000_to_year_fraction_simple(s), q - np.floor(q), "simple fraction", rtol=0, atol=1e-12)
    c.close(T.mjd2000_to_year_fraction_simple(s) * 1., (T.mjd2000_to_decimal_year_simple(s)) % 1., "simple fraction of the year", rtol=0, atol=1e-11)

@contract("C12", 30)
def special(c):
    """infinite values and NaN; shapes and layouts"""
    x = np.array([np.inf, -np.inf, np.nan, 2000.])
    c.same(d2m(x), [np.inf, -np.inf, np.nan, 0.], "special values")
    for v in x: c.same(d2m(v), {2000.: 0.}.get(v, v), "special scalar")
    a = c.rng.uniform(-5e4, 5e4, (4, 3, 2))
    for f in (m2d, m2f, d2m):
        b = a if f is not d2m else 2000 + a / 365
        want = np.array([float(f(q)) for q in b.ravel()]).reshape(b.shape)
        for v in (b, np.asfortranarray(b), b[::-1, ::-1][::-1, ::-1], b.tolist()): c.same(f(v), want, "layout")
        c.same(f(b[:, ::2]), want[:, ::2], "strided"); c.same(f(np.float64(b[0, 0, 0])), want[0, 0, 0], "scalar")
        c.require(f(np.zeros((0, 2)) + 2000).shape == (0, 2), "empty")
    c.raises(lambda: d2m("abc"), "invalid type"); c.raises(lambda: T.datetime_to_decimal_year(2000.), "type")
