"""Contracts: radial powers, longitude series (C04), Fourier helpers (C09)."""
from contract import *
from specs import *
from prover import L1, LPair, LMatPair, LTri, LTriPair

DEGMAX = 46339
def arr(st, obj, size, readonly=False, unit=8, kind="double"):
    st.arrays[obj] = Arr(fresh_name(obj), size, unit, kind, readonly, label=obj)
    return Ptr(obj, 0)
def upto(n): return lambda k: cmp("<=", k, n)

class RelradInt(Contract):
    """rrp[k] = (1/relrad)^(k+2)"""
    name = "shc_relradpow_internal"
    def val(self, e): return lambda k: PW(real(1) / e.relrad, k + 2)
    def build(self, ex, st):
        d = ivar("degree")
        return [arr(st, "rrp", d + 1), d, rvar("relrad")]
    def env(self, a): return Env(rrp=a[0], degree=a[1], relrad=valof(a[2]))
    def pre(self, e): return [("degree range", and_(cmp(">=", e.degree, 0), cmp("<=", e.degree, DEGMAX))), ("radius not zero", cmp("!=", e.relrad, 0)),
                              ("output size", cmp(">=", e.st.arrays[e.rrp.obj].size, e.rrp.off + e.degree + 1))]
    def mods(self, e): return [e.rrp]
    def post(self, e): return [("all terms", ("arr", e.rrp, L1(), upto(e.degree), self.val(e)))]
    def reals(self, ex): return [("term", 1, self.val(self.e))]
    def arrays(self, ex): return {self.e.rrp.obj: [(L1(), "term", self.val(self.e))]}
class RelradExt(RelradInt):
    """rrp[k] = relrad^(k-1)"""
    name = "shc_relradpow_external"
    def val(self, e): return lambda k: PW(e.relrad, k) / e.relrad
class CosSin(Contract):
    """(cos(k x), sin(k x)), k = 0..n"""
    name = "fs_cos_sin"
    def build(self, ex, st):
        n = ivar("n"); return [arr(st, "cs", 2 * n + 2), n, rvar("x")]
    def env(self, a): return Env(cs=a[0], n=a[1], x=valof(a[2]))
    def pre(self, e): return [("number of terms", and_(cmp(">=", e.n, 0), cmp("<=", e.n, 1 << 40))),
                              ("output size", cmp(">=", e.st.arrays[e.cs.obj].size, e.cs.off + 2 * e.n + 2))]
    def mods(self, e): return [e.cs]
    def trigbase(self, e): return [e.x]
    def C(self, e): return lambda k: CM(e.x, k)
    def S(self, e): return lambda k: SM(e.x, k)
    def post(self, e): return [("cosines", ("arr", e.cs, LPair(0), upto(e.n), self.C(e))), ("sines", ("arr", e.cs, LPair(1), upto(e.n), self.S(e)))]
    def reals(self, ex): return [("cos", 1, self.C(self.e)), ("sin", 1, self.S(self.e))]
    def arrays(self, ex): return {self.e.cs.obj: [(LPair(0), "cos", self.C(self.e)), (LPair(1), "sin", self.S(self.e))]}
class CosSinRef(CosSin):
    name = "fs_cos_sin_ref"
RelradInt(); RelradExt(); CosSin(); CosSinRef()
