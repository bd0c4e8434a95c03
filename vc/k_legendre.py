"""Contracts: associated Legendre functions (C03)."""
from contract import *
from specs import *
import specs, ring
from prover import L1, LTri
from k_series import arr, upto, DEGMAX

def sqrt_tables(e):
    """psqrt[k] = sqrt(k) and prsqrt[k] = 1/sqrt(k), k = (1..) 2 degree + 1"""
    return [("square roots", ArrClaim(e.psqrt.obj, e.psqrt.off, L1(), lambda k: cmp("<", k, 2 * e.degree + 2), lambda k: app("SQ", k))),
            ("reciprocal square roots", ArrClaim(e.prsqrt.obj, e.prsqrt.off, L1(), lambda k: and_(cmp(">=", k, 1), cmp("<", k, 2 * e.degree + 2)), lambda k: real(1) / app("SQ", k)))]

class LegLow(Contract):
    name = "shc_legendre_low"
    mindeg = 0; mode = "m"; lemma = False
    def build(self, ex, st):
        d = ivar("degree"); n = TRI(d + 1)
        return [arr(st, "lp", n), arr(st, "ldp", n), d, rvar("s"), rvar("c"), arr(st, "psqrt", 2 * d + 2, True), arr(st, "prsqrt", 2 * d + 2, True)]
    def env(self, a):
        specs.LEG.update(S=self.mode, lemma=self.lemma)
        return Env(lp=a[0], ldp=a[1], degree=a[2], s=valof(a[3]), c=valof(a[4]), psqrt=a[5], prsqrt=a[6])
    def pre(self, e):
        sz = lambda p: e.st.arrays[p.obj].size
        return [("degree range", and_(cmp(">=", e.degree, self.mindeg), cmp("<=", e.degree, DEGMAX))),
                ("output size", cmp(">=", sz(e.lp), e.lp.off + TRI(e.degree + 1))), ("output size of the derivatives", cmp(">=", sz(e.ldp), e.ldp.off + TRI(e.degree + 1))),
                ("table size", and_(cmp(">=", sz(e.psqrt), e.psqrt.off + 2 * e.degree + 2), cmp(">=", sz(e.prsqrt), e.prsqrt.off + 2 * e.degree + 2)))] + sqrt_tables(e)
    def mods(self, e): return [e.lp, e.ldp]
    def sample(self, rng):
        s = rng.uniform(-0.9, 0.9); return {"s": s, "c": (1 - s * s) ** 0.5}
    def post(self, e):
        r = lambda i, j: cmp("<=", i, e.degree)
        return [("Legendre functions", ("arr", e.lp, LTri(), r, leg(e.s, e.c))), ("derivatives", ("arr", e.ldp, LTri(), r, dleg(e.s, e.c)))]
    # shapes of the candidate invariants: (Gauss normalised functions, 2^(n-1) times those) and the factors in between
    def reals(self, ex):
        return [("S0", 1, lambda n: S(n, 0)), ("S", 2, lambda n, m: S(n, m)),
                ("S0/2^n", 1, lambda n: 2 * S(n, 0) / PW(2, n)), ("S/2^n", 2, lambda n, m: 2 * S(n, m) / PW(2, n))]
    def arrays(self, ex):
        e = self.e; s, c = e.s, e.c
        half = lambda f: lambda n, m: PW(2, n) / 2 * f(n, m)
        return {e.lp.obj: [(LTri(), "G", gauss(s, c)), (LTri(), "2G", half(gauss(s, c))), (LTri(), "P", leg(s, c))],
                e.ldp.obj: [(LTri(), "DG", dgauss(s, c)), (LTri(), "2DG", half(dgauss(s, c))), (LTri(), "DP", dleg(s, c))]}
class LegHigh(LegLow):
    name = "shc_legendre_high"
    mindeg = 1; mode = "n"; lemma = True
    def build(self, ex, st):
        a = LegLow.build(self, ex, st)
        s, c = a[3], a[4]
        ring.REDUCE[ring.aid(("v", "c"), c)] = (2, ring.rat(real(1) - s * s))
        specs.LEG["c2"] = lambda x: c * c if ring.rzero(x - c * c) else x
        return a
    def pre(self, e):
        return LegLow.pre(self, e) + [("cosine is not zero", cmp("!=", e.c, 0)), ("sine and cosine", RealGoal("eq", e.c * e.c, real(1) - e.s * e.s))]
    def reals(self, ex):
        s, c = self.e.s, self.e.c; sc = real(10**280)
        return [("P0", 1, lambda n: S(n, 0) * G(s, n, 0)), ("H", 2, lambda n, m: S(n, m) * G(s, n, m) / sc), ("pmm", 1, lambda m: S(m, m) * app("SQ", 2 * m) / sc),
                ("pc", 1, lambda m: sc * PW(c, m))]
    def arrays(self, ex):
        e = self.e; s, c = e.s, e.c
        r = lambda i, j: cmp("<=", i, e.degree)
        return {e.lp.obj: [(LTri(), "P", leg(s, c), r)], e.ldp.obj: [(LTri(), "DP", dleg(s, c), r)]}
class Leg(LegLow):
    """s = sin(elv), c = sqrt((1-s)(1+s)) = cos(elv) for the latitudes"""
    name = "shc_legendre"
    def build(self, ex, st):
        a = LegLow.build(self, ex, st)
        return a[:3] + [rvar("elv")] + a[5:]
    def env(self, a):
        specs.LEG.update(S=self.mode, lemma=self.lemma)
        s = app("SIN", valof(a[3]))
        return Env(lp=a[0], ldp=a[1], degree=a[2], s=s, c=app("SQRT", (real(1) - s) * (real(1) + s)), psqrt=a[4], prsqrt=a[5])
    def sample(self, rng): return {}

class PreSqrt(Contract):
    """table of the square roots of 0..2 degree + 1"""
    name = "shc_presqrt"
    val = staticmethod(lambda k: app("SQ", k)); lo = 0
    def build(self, ex, st): return [ivar("degree")]
    def env(self, a): return Env(degree=a[0])
    def pre(self, e): return [("degree range", and_(cmp(">=", e.degree, 0), cmp("<=", e.degree, DEGMAX)))]
    def region(self, e): return lambda k: and_(cmp(">=", k, self.lo), cmp("<", k, 2 * e.degree + 2))
    def post(self, e):
        if isinstance(e.ret, cexec.Null): return []
        return [("size of the table", ("prop", cmp("==", e.st.arrays[e.ret.obj].size, 2 * e.degree + 2))), ("start of the block", ("prop", cmp("==", e.ret.off, 0))),
                ("all square roots", ("arr", e.ret, L1(), self.region(e), self.val))]
    def result(self, ex, e):
        from prover import Arr
        o = fresh_name("heap table")
        e.st.arrays[o] = Arr(fresh_name(o), 2 * e.degree + 2, 8, "double", label="allocated table")
        e.st.ghost["heap"] = e.st.ghost.get("heap", []) + [o]
        return Ptr(o, 0)
    def wrap(self, ret, st):
        r = MaybeNull(z3.Bool(fresh_name("allocation fails")), ret)
        st.ghost["failed"] = {**st.ghost.get("failed", {}), ret.obj: r.cond}; return r
    def heap(self, ex): return [(L1(), "root", self.val, lambda k: cmp(">=", k, self.lo))]
class PreRSqrt(PreSqrt):
    """table of the reciprocal square roots (the element 0 is infinite and never used)"""
    name = "shc_prersqrt"
    val = staticmethod(lambda k: real(1) / app("SQ", k)); lo = 1
    div0nan = True
LegLow(); LegHigh(); Leg(); PreSqrt(); PreRSqrt()
