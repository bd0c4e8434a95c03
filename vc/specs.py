"""Spec functions of the contracts and their defining equations (mathematics, not code)."""
import z3
from terms import *
import prover as P
from prover import SPECS, Spec, APPAX, NONZERO, NONNEG, decide

def ge(st, a, b):
    c = cmp(">=", a, b)
    return c if isinstance(c, bool) else decide(st, c) is True
def eq(st, a, b):
    c = cmp("==", a, b)
    return c if isinstance(c, bool) else decide(st, c) is True

# PW(x, n) = x^n for integer n >= 0
def _pw(st, x, n):
    if not isinstance(n, IP) and n == 0: return real(1), 0
    if ge(st, n, 1): return x * app("PW", x, n - 1), 1
    if eq(st, n, 0): return real(1), 0
Spec("PW", lambda x, n: n, _pw, base=lambda x, n: [cmp("==", n, 0)])
def PW(x, n): return app("PW", real(x), n)

# CM(x, n) = cos(n x), SM(x, n) = sin(n x), n >= 0: angle addition
def _cm(st, x, n):
    if not isinstance(n, IP) and n == 0: return real(1), 0
    if ge(st, n, 1): return app("CM", x, n - 1) * app("COS", x) - app("SM", x, n - 1) * app("SIN", x), 1
def _sm(st, x, n):
    if not isinstance(n, IP) and n == 0: return real(0), 0
    if ge(st, n, 1): return app("SM", x, n - 1) * app("COS", x) + app("CM", x, n - 1) * app("SIN", x), 1
Spec("CM", lambda x, n: n, _cm); Spec("SM", lambda x, n: n, _sm)
def CM(x, n): return app("CM", x, n)
def SM(x, n): return app("SM", x, n)

APPAX["SQ"] = lambda n: [implies(cmp(">=", n, 0), cmp(">=", app("SQ", n), 0)), implies(cmp(">=", n, 1), cmp(">=", app("SQ", n), 1))]
APPAX["SIN"] = lambda x: [cmp("<=", app("SIN", x), 1), cmp(">=", app("SIN", x), -1)]
APPAX["COS"] = lambda x: [cmp("<=", app("COS", x), 1), cmp(">=", app("COS", x), -1)]
APPAX["SQRT"] = lambda e: [cmp(">=", app("SQRT", e), 0), implies(cmp(">", e, 0), cmp(">", app("SQRT", e), 0)), cmp("==", app("SQRT", e) * app("SQRT", e), e)]
NONZERO.append(lambda st, t: t.op == "app" and t.a[0] == "SQ" and ge(st, t.a[1], 1))
NONNEG.append(lambda st, t: t.op == "int" and ge(st, t.a[0], 0))

# ---------------------------------------------------------------- associated Legendre functions (as polynomials)
# Gauss-normalised P_nm(s) = c^m G(n,m), c = sqrt(1-s^2):
#   G(m,m) = 1, G(m+1,m) = s, G(n,m) = s G(n-1,m) - K(n,m) G(n-2,m), K = ((n-1)^2-m^2)/((2n-1)(2n-3))
# DG = dG/ds (termwise derivative of the recurrence), Schmidt factor
#   S(n,0) = S(n-1,0) (2n-1)/n, S(n,1) = S(n,0) sqrt(2n/(n+1)), S(n,m) = S(n,m-1) sqrt((n-m+1)/(n+m))
def KK(n, m): return (real(n - 1) * real(n - 1) - real(m) * real(m)) / (real(2 * n - 1) * real(2 * n - 3))
def _g(st, s, n, m):
    if eq(st, n, m): return real(1), 0
    if eq(st, n, m + 1): return s, 0
    if ge(st, n, m + 2): return s * app("G", s, n - 1, m) - KK(n, m) * app("G", s, n - 2, m), 2
def _dg(st, s, n, m):
    if LEG["lemma"] and ge(st, n, m + 1) or LEG["lemma"] and eq(st, n, m):
        # lemma (1-s^2) DG(n,m) = (n^2-m^2)/(2n-1) G(n-1,m) - (n-m) s G(n,m)
        lam = (real(n) * real(n) - real(m) * real(m)) / real(2 * n - 1)
        c2 = real(1) - s * s
        if eq(st, n, m): return real(0), 0
        return (lam * app("G", s, n - 1, m) - real(n - m) * s * app("G", s, n, m)) / LEG["c2"](c2), 0
    if eq(st, n, m): return real(0), 0
    if eq(st, n, m + 1): return real(1), 0
    if ge(st, n, m + 2): return app("G", s, n - 1, m) + s * app("DG", s, n - 1, m) - KK(n, m) * app("DG", s, n - 2, m), 2
LEG = {"lemma": False, "S": "m", "c2": lambda x: x}
def lvl(n, m): return n - m
NM = lambda n, m: [cmp("==", n, m), cmp("==", n, m + 1)]
Spec("G", lambda s, n, m: n - m, _g, base=lambda s, n, m: NM(n, m))
Spec("DG", lambda s, n, m: None if LEG["lemma"] else n - m, _dg, base=lambda s, n, m: NM(n, m))
def _s0(st, n):
    if eq(st, n, 0): return real(1), 0
    if ge(st, n, 1): return app("S0", n - 1) * real(2 * n - 1) / real(n), 1
Spec("S0", lambda n: n, _s0, base=lambda n: [cmp("==", n, 0)])
def _s(st, n, m):
    if LEG["S"] == "n":
        if eq(st, n, 0): return real(1), 0
        if eq(st, n, m):
            if eq(st, m, 1): return real(1), 0
            if ge(st, m, 2): return app("S", n - 1, m - 1) * app("SQ", 2 * m - 1) / app("SQ", 2 * m), 1       # lemma
        if ge(st, n, m + 1): return app("S", n - 1, m) * real(2 * n - 1) / (app("SQ", n - m) * app("SQ", n + m)), 1      # lemma
        return None
    if eq(st, m, 0): return app("S0", n), 0
    if eq(st, m, 1): return app("S0", n) * app("SQ", 2 * n) / app("SQ", n + 1), 0
    if ge(st, m, 2): return app("S", n, m - 1) * app("SQ", n - m + 1) / app("SQ", n + m), 1
Spec("S", lambda n, m: n if LEG["S"] == "n" else m, _s, base=lambda n, m: [cmp("==", m, 0), cmp("==", m, 1)] if LEG["S"] != "n" else [cmp("==", n, 0), cmp("==", n, m), cmp("==", m, 1)])
def G(s, n, m): return app("G", s, n, m)
def DG(s, n, m): return app("DG", s, n, m)
def S(n, m): return app("S", n, m)
def leg(s, c): return lambda n, m: S(n, m) * PW(c, m) * G(s, n, m)
def dleg(s, c): return lambda n, m: S(n, m) * (PW(c, m + 1) * DG(s, n, m) - real(m) * s * PW(c, m - 1) * G(s, n, m))
def gauss(s, c): return lambda n, m: PW(c, m) * G(s, n, m)
def dgauss(s, c): return lambda n, m: PW(c, m + 1) * DG(s, n, m) - real(m) * s * PW(c, m - 1) * G(s, n, m)
