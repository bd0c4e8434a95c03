"""Lemmas over the spec functions (mathematics used by the contracts), proved by induction with the same back ends."""
import time
from terms import *
import prover as P
import specs
from specs import LEG, G, DG, S
import cexec

def _state(*conds):
    st = cexec.State()
    for c in conds: st.assume(c)
    P.tighten(st)
    return st
def _obl(res, name, kind, st, a, b):
    t = time.time()
    if P.infeasible(st): ok, why = False, "contradictory assumptions"
    else: ok, why = P.prove_eq(st, real(a), real(b))
    res["obligations"].append({"id": "lemma:%s:%s" % (name, kind), "function": "lemma " + name, "kind": "lemma", "status": "proved" if ok else "failed",
                               "backend": "ring+z3", "detail": "" if ok else why, "time": round(time.time() - t, 3)})

def legendre(res, budget):
    """the closed form of (1-s^2) dG/ds and the recurrences of the Schmidt factors along a column and the diagonal"""
    SQ = lambda n: app("SQ", n)
    s = rvar("s"); n, m = ivar("n"), ivar("m")
    c2 = real(1) - s * s
    old = dict(LEG)
    try:
        LEG.update(S="m", lemma=False, c2=lambda x: x)
        dom = [cmp(">=", m, 0), cmp(">=", n, m), cmp("<=", n, 46339)]
        rhs = lambda n: (real(n) * real(n) - real(m) * real(m)) / real(2 * n - 1) * G(s, n - 1, m) - real(n - m) * s * G(s, n, m)
        # L1 (1-s^2) DG(n,m) = (n^2-m^2)/(2n-1) G(n-1,m) - (n-m) s G(n,m), induction on n
        st = _state(*dom, cmp("==", n, m + 1)); _obl(res, "L1", "base n=m+1", st, c2 * specs._dg(st, s, n, m)[0], rhs(n))
        st = _state(*dom, cmp("==", n, m)); _obl(res, "L1", "base n=m", st, specs._dg(st, s, n, m)[0], real(0))
        for kind, cond in (("step n=m+2", cmp("==", n, m + 2)), ("step n=m+3", cmp("==", n, m + 3)), ("step n>=m+4", cmp(">=", n, m + 4))):
            st = _state(*dom, cond)
            LEG["lemma"] = False
            d = specs._dg(st, s, n, m)[0]          # the definition of DG(n,m) in terms of DG(n-1,m), DG(n-2,m) ...
            LEG["lemma"] = True                    # ... for which the lemma is assumed
            _obl(res, "L1", kind, st, c2 * d, rhs(n))
        LEG["lemma"] = False
        # L2 S(n,m) = S(n-1,m) (2n-1)/(SQ(n-m) SQ(n+m)) for n > m, induction on m
        f = lambda n, m: real(2 * n - 1) / (SQ(n - m) * SQ(n + m))
        dom = [cmp(">=", m, 0), cmp(">", n, m), cmp("<=", n, 46339)]
        for kind, cond in (("base m=0", cmp("==", m, 0)), ("base m=1", cmp("==", m, 1))):
            st = _state(*dom, cond); _obl(res, "L2", kind, st, S(n, m), S(n - 1, m) * f(n, m))
        st = _state(*dom, cmp(">=", m, 2))
        d, e = specs._s(st, n, m)[0], specs._s(st, n - 1, m)[0]
        ih = {S(n, m - 1): S(n - 1, m - 1) * f(n, m - 1)}
        _obl(res, "L2", "step m>=2", st, P.replace(d, ih, {}), e * f(n, m))
        # L3 S(m,m) = S(m-1,m-1) SQ(2m-1)/SQ(2m) for m >= 2, S(1,1) = 1, S(n,0) = 1 at n = 0
        st = _state(cmp(">=", m, 2), cmp("<=", m, 46339))
        d = specs._s(st, m, m)[0]
        _obl(res, "L3", "m>=2", st, P.replace(d, {S(m, m - 1): S(m - 1, m - 1) * f(m, m - 1)}, {}), S(m - 1, m - 1) * SQ(2 * m - 1) / SQ(2 * m))
        st = _state(); _obl(res, "L3", "S(1,1)", st, S(1, 1), real(1)); _obl(res, "L3", "S(0,0)", st, S(0, 0), real(1))
    finally:
        LEG.clear(); LEG.update(old)
    res["functions"].append({"name": "lemmas on the Schmidt semi-normalised Legendre functions", "kind": "lemma"})

def _z(res, name, kind, hyp, goal, timeout=120000):
    """hyp |= goal by z3"""
    import z3
    t = time.time(); s = z3.Solver(); s.set("timeout", timeout); s.add(*hyp)
    if s.check() == z3.unsat: ok, why = False, "contradictory assumptions"
    else:
        s.add(z3.Not(goal)); r = s.check(); ok = r == z3.unsat; why = "" if ok else "%s %s" % (r, s.model() if r == z3.sat else "")
    P.STATS["z3"] += 1; P.STATS["z3_time"] += time.time() - t
    res["obligations"].append({"id": "lemma:%s:%s" % (name, kind), "function": "lemma " + name, "kind": "lemma", "status": "proved" if ok else "failed",
                               "backend": "z3", "detail": why, "time": round(time.time() - t, 3)})

def calendar(res, budget):
    """the years partition the time axis; the conversions are mutually inverse, continuous and increasing"""
    import z3, k_time
    y, r, d, f = z3.Ints("y r d f"); t, u, x = z3.Reals("t u x")
    Y = lambda a: zi(k_time.YS(iz(a))); R = z3.ToReal
    days = lambda a: zi(k_time.days(iz(a))); dom = lambda a: z3.And(a >= k_time.YMIN, a <= k_time.YMAX)
    length = z3.If(y == 1582, z3.IntVal(355), days(y))
    _z(res, "calendar", "the origin", [], z3.And(Y(z3.IntVal(2000)) == 0, Y(z3.IntVal(1)) == -730121))
    _z(res, "calendar", "YS(y+1) - YS(y) is the length of the year (1582: 355 days)", [dom(y)], Y(y + 1) - Y(y) == length)
    _z(res, "calendar", "years do not overlap", [dom(y), dom(r), y < r], Y(y + 1) <= Y(r))
    inyear = lambda t, y: z3.And(dom(y), R(Y(y)) <= t, t < R(Y(y + 1)))
    dy = lambda t, y: R(y) + (t - R(Y(y))) / R(days(y))          # postcondition of mjd2k_to_decimal_year, y = YEAR(t)
    inv = lambda x, y: R(Y(y)) + (x - R(y)) * R(days(y))         # postcondition of decimal_year_to_mjd2k, y = floor(x)
    for leapy in (True, False):
        n = "leap" if leapy else "common"; h = [z3.And(k_time.leap(iz(y))) if leapy else z3.Not(k_time.leap(iz(y)))]
        N = 366 if leapy else 365
        dyn = lambda t, y, N=N: R(y) + (t - R(Y(y))) / N
        _z(res, "calendar", "fraction in [0, 1), %s years" % n, h + [inyear(t, y)], z3.And(dyn(t, y) >= R(y), dyn(t, y) < R(y) + 1))
        _z(res, "calendar", "round trip from MJD2000, %s years" % n, h + [inyear(t, y)], R(Y(y)) + (dyn(t, y) - R(y)) * N == t)
        _z(res, "calendar", "the decimal year is in the year of the time, %s years" % n, h + [dom(y), y != 1582, R(y) <= x, x < R(y) + 1], inyear(R(Y(y)) + (x - R(y)) * N, y))
        _z(res, "calendar", "round trip from the decimal year, %s years" % n, h + [dom(y), R(y) <= x, x < R(y) + 1], R(y) + ((R(Y(y)) + (x - R(y)) * N) - R(Y(y))) / N == x)
        _z(res, "calendar", "increasing within %s years" % n, h + [inyear(t, y), inyear(u, y), t < u], dyn(t, y) < dyn(u, y))
        _z(res, "calendar", "continuous at the end of %s years" % n, h + [dom(y), y != 1582], dyn(R(Y(y + 1)), y) == R(y) + 1)
    res["functions"].append({"name": "lemmas on the calendar", "kind": "lemma"})

def geometry(res, budget):
    """the ellipsoid: the geodetic coordinates and the closed form of their inverse; spherical coordinates"""
    import z3
    from k_geo import SQ2
    V = rvar; SQRT = lambda x: app("SQRT", x)
    def ok(name, kind, a, b=0, *conds): _obl(res, name, kind, _state(*conds), real(a), real(b))
    # ---- ellipsoid: the point (rc cos, (1-e2) rc sin) is on the ellipse with the semi-axes a, a sqrt(1-e2), its normal has the direction (cos, sin)
    a, e2, s, h = V("a"), V("e2"), V("s"), V("h")
    w2 = real(1) - e2 * s * s                                  # rc = a/sqrt(w2)
    c2 = real(1) - s * s
    pos = [cmp(">", e2, 0), cmp("<", e2, 1), cmp(">", a, 0), cmp("<=", s * s, 1)]
    X2, Z = a * a / w2 * c2, (real(1) - e2) * s
    ok("ellipsoid", "foot point on the ellipse", X2 / (a * a) + Z * Z / w2 / (real(1) - e2), 1, *pos)
    # gradient of x^2/a^2 + z^2/(a^2 (1-e2)) at the foot point is parallel to (cos, sin): x sin = z cos / (1-e2)
    ok("ellipsoid", "normal at the foot point", s * (real(1) - e2), Z, *pos)
    # the point: foot point + h (cos, sin): (rc + h) cos, ((1-e2) rc + h) sin is the spec 'meridian' (by form)
    # ---- ferrari: resolvent cubic
    r, q, t = V("r"), V("sq"), V("t")
    u = r + t + r * r / t
    nz = [cmp(">", t, 0)]
    ok("ferrari", "constraint of t", (t * t * t - (r * r * r + q)) * (t * t * t - (r * r * r + q)) - q * (q + 2 * r * r * r), PWr(t, 6) - 2 * PWr(t, 3) * (PWr(r, 3) + q) + PWr(r, 6))
    ok("ferrari", "u is a root of the resolvent cubic", PWr(t, 3) * (PWr(u, 3) - 3 * r * u * u - 2 * q), PWr(t, 6) - 2 * PWr(t, 3) * (PWr(r, 3) + q) + PWr(r, 6), *nz)
    # ---- quartic; u, Q, e2 free, r and P from the resolvent cubic u^2 (u - 3r) = 2s, s = e4 P Q / 4, 6r = P + Q - e4
    u, Q = V("u"), V("Q"); e4 = e2 * e2
    dom = [cmp(">", u, 0), cmp(">=", Q, 0), cmp(">", e2, 0), cmp("<", e2, 1)]
    v2 = u * u + e4 * Q
    r = (2 * u * u * u + e4 * Q * (Q - e4)) / (6 * v2); P_ = 6 * r - Q + e4
    ok("ferrari", "the resolvent cubic determines r", u * u * (u - 3 * r), e4 * P_ * Q / 2, *dom)
    v = V("v"); k = V("k"); w = V("w")
    F = lambda k, P: PWr(k, 4) + 2 * e2 * PWr(k, 3) - (P + Q - e4) * k * k - 2 * e2 * Q * k - e4 * Q
    D1 = v * v - u * u - e4 * Q; D2 = 2 * v * w - e2 * (u + v - Q); D4 = k * k + 2 * k * w - (u + v)
    rr = V("r")
    k2 = 2 * u - 6 * rr - 4 * w * e2 + 4 * w * w               # residual of the coefficient of k^2
    ok("ferrari", "factors of the quartic", F(k, 6 * rr - Q + e4), D4 * (k * k + (2 * e2 - 2 * w) * k - (u - v)) + k2 * k * k - 2 * D2 * k + D1)
    wv = e2 * (u + v - Q) / (2 * v)                            # D2 = 0
    ok("ferrari", "residual of the quartic", v * v * (2 * u - 6 * rr - 4 * wv * e2 + 4 * wv * wv), v * v * (2 * u - 6 * rr) - e4 * (v * v - (u - Q) * (u - Q)), cmp(">", v, 0))
    ok("ferrari", "residual vanishes", v2 * (2 * u - 6 * r) - e4 * (v2 - (u - Q) * (u - Q)), 0, *dom)
    ok("ferrari", "quartic as the ellipse equation", F(k, V("P")), k * k * (k + e2) * (k + e2) - V("P") * k * k - Q * (k + e2) * (k + e2))
    R = V("root")                                              # root = sqrt(u + v + w^2), k = root - w
    ok("ferrari", "k = root - w solves k^2 + 2kw = u + v", (R - w) * (R - w) + 2 * (R - w) * w - (u + v), R * R - w * w - (u + v))
    ok("ferrari", "kp = (k + e2)/k", (real(1) + e2 * (R + w) / (u + v)) * (R - w) - (R - w + e2), e2 * (R * R - w * w - (u + v)) / (u + v), cmp(">", u, 0), cmp(">", v, 0))
    # ---- inverse: k > 0 with p^2/(k+e2)^2 + (1-e2) z^2/k^2 = a^2; n = sqrt(p^2 + z^2 kp^2), sin = z kp/n, cos = p/n
    p, z, n = V("p"), V("z"), V("n")
    kp = (k + e2) / k
    dom = [cmp(">", k, 0), cmp(">", e2, 0), cmp("<", e2, 1), cmp(">", a, 0), cmp(">", n, 0)]
    A2 = p * p / ((k + e2) * (k + e2)) + (real(1) - e2) * z * z / (k * k)          # = a^2
    n2 = p * p + z * z * kp * kp                                                    # = n^2
    sn2 = z * z * kp * kp / n2
    ok("ferrari", "radius of curvature: rc = n/(k+e2)", n2 / ((k + e2) * (k + e2)) * (real(1) - e2 * sn2), A2, *dom, cmp(">", n2, 0))
    elv = n * (real(1) / kp - (real(1) - e2)) / e2; rc = n / (k + e2)
    ok("ferrari", "rc + elv = n", rc + elv, n, *dom)
    ok("ferrari", "the axial distance is restored", (rc + elv) * p / n, p, *dom)
    ok("ferrari", "z is restored", ((real(1) - e2) * rc + elv) * z * kp / n, z, *dom)
    # ---- spherical coordinates: sph2cart(cart2sph) = identity; sin(asin(z/r)) = z/r, cos = sqrt(1 - z^2/r^2)
    x, y, z = V("x"), V("y"), V("z")
    rho = SQRT(x * x + y * y); rad = SQRT(x * x + y * y + z * z)
    dom = [cmp(">", x * x + y * y, 0)]
    sth = z / rad
    ok("spherical", "r^2 cos^2 = x^2 + y^2", rad * rad * (real(1) - sth * sth), x * x + y * y, *dom, cmp(">", rad, 0))
    ok("spherical", "x restored", rho * (x / rho), x, *dom, cmp(">", rho, 0))
    res["functions"].append({"name": "lemmas on the ellipsoid and the spherical coordinates", "kind": "lemma"})
def PWr(x, n):
    r = x
    for _ in range(n - 1): r = r * x
    return r

def sun(res, budget):
    """the five outputs describe one direction; the two variants have the same day from 2000-03-01 to 2100-02-28"""
    import z3, k_sun, k_time
    from k_sun import SQRT, SINr, COSr, const
    V = rvar
    def ok(name, kind, a, b=0, *conds): _obl(res, name, kind, _state(*conds), real(a), real(b))
    # ---- equatorial: the direction with the ecliptic longitude lam, latitude 0, in the frame inclined by eps
    lam, eps = V("lam"), V("eps"); sl, cl, se = SINr(lam), COSr(lam), SINr(eps); ce = SQRT(real(1) - se * se)
    c1 = [cmp("<=", se * se, 1)]
    ok("equatorial", "the components cl, sl ce, sl se (of which the right ascension and the declination are taken) are those of a unit vector", cl * cl + sl * ce * sl * ce + sl * se * sl * se, 1, *c1)
    # ---- horizontal: (cos d cos h, -cos d sin h, sin d) in the meridian frame, rotated to north, east, up at the latitude phi
    phi, d, h = V("phi"), V("decl"), V("hang"); sp, sd, sh, ch = SINr(phi), SINr(d), SINr(h), COSr(h); cp, cd = SQRT(real(1) - sp * sp), SQRT(real(1) - sd * sd)
    N, E, U = cp * sd - sp * cd * ch, real(0) - cd * sh, sp * sd + cp * cd * ch
    pos = [cmp("<", sd * sd, 1), cmp("<=", sp * sp, 1), cmp(">", cd, 0)]
    ok("horizontal", "unit vector", N * N + E * E + U * U, 1, *pos)
    az, zen, _ = k_sun.horizontal(d, h, phi, real(0), real(0), real(0))
    ok("horizontal", "zenith angle: complement of the elevation of the vector", zen, const(1.5707963267948966) - app("ASIN", U), *pos)
    ok("horizontal", "azimuth: the arguments of the arctangent are -E / cos d and -N / cos d (south is subtracted by the half turn)", (ch * sp - sd * cp / cd) * cd, real(0) - N, *pos)
    ok("horizontal", "azimuth: east component", sh * cd, real(0) - E, *pos)
    # ---- parallax
    r = V("rad"); z2 = k_sun.horizontal(d, h, phi, r, real(0), real(0))[1]
    ok("parallax", "proportional to the radius and to the cosine of the elevation", z2 - zen, SQRT(real(1) - U * U) * r / const(149597871.0), *pos)
    # ---- hour angle: whole turns aside it is the sum of its value at the longitude zero and the longitude
    t, te, lon = V("t"), V("te"), V("lon")
    ra = V("ra"); h0 = V("h0"); w = k_sun.wrap(h0 + lon, real(0) - k_sun.pi()) - k_sun.wrap(h0, real(0) - k_sun.pi())
    n = real(k_sun.fl((h0 + lon + k_sun.pi()) / (2 * k_sun.pi()))) - real(k_sun.fl((h0 + k_sun.pi()) / (2 * k_sun.pi())))
    ok("hour angle", "longitude", w + 2 * k_sun.pi() * n, lon)
    # ---- the day count of the original algorithm (exact evaluation: the day of the month enters linearly)
    import datetime
    t0 = time.time(); bad = []; cnt = 0
    trunc = lambda x: int(x)
    for y in range(2000, 2101):
        for m in range(1, 13):
            if (y, m) < (2000, 3) or (y, m) > (2100, 2): continue
            jf = 1 if m <= 2 else 0; yt, mt = y - jf, m + 12 * jf; cnt += 1
            day = trunc(Fraction(365.25) * (yt - 2000)) + trunc(Fraction(30.6001) * (mt + 1)) - trunc(Fraction(0.01) * yt) + 1 - 21958
            if day != (datetime.date(y, m, 1) - datetime.date(2000, 1, 1)).days + k_sun.T0: bad.append((y, m))
    res["obligations"].append({"id": "lemma:day count:2000-03 to 2100-02 (%d months)" % cnt, "function": "lemma day count", "kind": "lemma", "status": "failed" if bad else "proved", "backend": "exact evaluation", "detail": str(bad[:5]) if bad else "", "time": round(time.time() - t0, 3)})
    res["functions"].append({"name": "lemmas on the position of the Sun", "kind": "lemma"})

def dipole(res, budget):
    """the matrix of py_dipole.matrix is a rotation which takes the pole to the dipole north pole; vectors are restored; the hour angle of the magnetic universal time"""
    import py_dipole
    from py_dipole import matrix, DEG
    from k_sun import SQRT
    V = rvar
    def ok(name, kind, a, b=0, *conds): _obl(res, name, kind, _state(*conds), real(a), real(b))
    # any values sp, sl of the sines and cosines with sp^2 + cp^2 = 1, sl^2 + cl^2 = 1
    lat, lon = V("lat"), V("lon"); sp, sl = V("sp"), V("sl"); cp, cl = SQRT(real(1) - sp * sp), V("q") * SQRT(real(1) - sl * sl)      # q = +1 or -1: the sign of the cosine of the longitude
    sub = {app("SIN", lat * DEG): sp, app("COS", lat * DEG): cp, app("SIN", lon * DEG): sl, app("COS", lon * DEG): cl}
    M = [[P.replace(x, sub, {}) for x in row] for row in matrix(lat, lon)]
    for q in (1, -1):
        c = [cmp("<=", sp * sp, 1), cmp("<=", sl * sl, 1)]
        N = [[P.replace(x, {V("q"): real(q)}, {}) for x in row] for row in M]
        for i in range(3):
            for j in range(i, 3):
                ok("dipole frame", "columns are orthonormal %d %d (%d)" % (i, j, q), sum((N[k][i] * N[k][j] for k in range(3)), real(0)), 1 if i == j else 0, *c)
                ok("dipole frame", "rows are orthonormal %d %d (%d)" % (i, j, q), sum((N[i][k] * N[j][k] for k in range(3)), real(0)), 1 if i == j else 0, *c)
        cr = [N[1][0] * N[2][1] - N[2][0] * N[1][1], N[2][0] * N[0][1] - N[0][0] * N[2][1], N[0][0] * N[1][1] - N[1][0] * N[0][1]]
        for k in range(3): ok("dipole frame", "right-handed, component %d (%d)" % (k, q), cr[k], N[k][2], *c)
        C_ = P.replace(cl, {V("q"): real(q)}, {}); pole = [cp * C_, cp * sl, sp]
        for k in range(3): ok("dipole frame", "the pole is the dipole north pole, component %d (%d)" % (k, q), sum((pole[i] * N[i][k] for i in range(3)), real(0)), 1 if k == 2 else 0, *c)
        x = [V("x%d" % k) for k in range(3)]; y = [sum((x[i] * N[i][j] for i in range(3)), real(0)) for j in range(3)]
        ok("dipole frame", "the radius is kept (%d)" % q, sum((v * v for v in y), real(0)), x[0] * x[0] + x[1] * x[1] + x[2] * x[2], *c)
        for i in range(3): ok("dipole frame", "rotation back restores the vector, component %d (%d)" % (i, q), sum((y[j] * N[i][j] for j in range(3)), real(0)), x[i], *c)
    # the arguments of the arctangent in the magnetic universal time are the components of the sub-solar direction in the dipole frame: (-x, y), up to the half turn
    sd, cd, ss, cs = V("sd"), V("cd"), V("ss"), V("cs")          # declination; longitude of the sub-solar point
    sp, cp, sl, cl = V("sp"), V("cp"), V("sl"), V("cl")
    M = [[P.replace(v, {app("SIN", lat * DEG): sp, app("COS", lat * DEG): cp, app("SIN", lon * DEG): sl, app("COS", lon * DEG): cl}, {}) for v in row] for row in matrix(lat, lon)]
    d = [cd * cs, cd * ss, sd]; y = [sum((d[i] * M[i][j] for i in range(3)), real(0)) for j in range(3)]
    cD, sD = cs * cl + ss * sl, ss * cl - cs * sl               # cosine and sine of the difference of the longitudes
    ok("magnetic universal time", "first component in the dipole frame", sp * cd * cD - cp * sd, y[0])
    ok("magnetic universal time", "second component in the dipole frame", cd * sD, y[1])
    a = V("angle"); pi = rt("const", frac(3.141592653589793))
    _z(res, "magnetic universal time", "between 0 and 24 hours for an angle between minus and plus a half turn", [zr(a) >= -zr(pi), zr(a) <= zr(pi)],
       __import__("z3").And(zr(real(12) - real(12) / pi * a) >= 0, zr(real(12) - real(12) / pi * a) <= 24))
    res["functions"].append({"name": "lemmas on the dipole frame", "kind": "lemma"})
