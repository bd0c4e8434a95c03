"""Contracts: Fourier series helpers (C09)."""
from contract import *
from specs import *
from prover import L1, LPair, LMatPair, Spec
from k_series import arr, upto, CosSin

def reader(e, p):
    st = e.st0
    return lambda i: P.aread(st, st.arrays[p.obj], p.off + i)
class CosSinNeg(Contract):
    """(cos(i x), sin(i x)) for i = nmin..nmax from the series of i = 0..max(|nmin|, |nmax|)"""
    name = "fs_cos_sin_neg"
    LIM = 1 << 30
    def build(self, ex, st):
        a, b = ivar("nmin"), ivar("nmax"); q = ivar("npos")
        return [arr(st, "out", 2 * (b - a + 1)), arr(st, "pos", 2 * q, True), a, b]
    def env(self, a): return Env(out=a[0], pos=a[1], a=a[2], b=a[3])
    def pre(self, e):
        A = e.st.arrays
        return [("range of the indices", and_(cmp(">=", e.a, -self.LIM), cmp("<=", e.b, self.LIM), cmp("<=", e.a, e.b + 1))),
                ("output size", cmp(">=", A[e.out.obj].size, e.out.off + 2 * (e.b - e.a + 1))),
                ("input covers |nmin|", or_(cmp("<", e.b, e.a), cmp(">=", A[e.pos.obj].size, e.pos.off + 2 * (1 - e.a)))),
                ("input covers |nmax|", or_(cmp("<", e.b, e.a), cmp(">=", A[e.pos.obj].size, e.pos.off + 2 * (e.b + 1))))]
    def mods(self, e): return [e.out]
    def val(self, e, c):
        r = reader(e, e.pos)
        return lambda k: rite(cmp("<", e.a + k, 0), (real(0) - r(2 * (0 - e.a - k) + 1)) if c else r(2 * (0 - e.a - k)), r(2 * (e.a + k) + c))
    def post(self, e):
        n = lambda k: cmp("<=", k, e.b - e.a)
        return [("cosines", ("arr", e.out, LPair(0), n, self.val(e, 0))), ("sines", ("arr", e.out, LPair(1), n, self.val(e, 1)))]
    def reals(self, ex): return [("cos", 1, self.val(self.e, 0)), ("sin", 1, self.val(self.e, 1))]
    def arrays(self, ex): return {self.e.out.obj: [(LPair(0), "cos", self.val(self.e, 0)), (LPair(1), "sin", self.val(self.e, 1))]}
class CosSin2D(Contract):
    """cos and sin of the sums of the angles, for every pair"""
    name = "fs_cos_sin_2d"
    LIM = 1 << 24
    def build(self, ex, st):
        n, m = ivar("n"), ivar("m")
        return [arr(st, "out", 2 * n * m), arr(st, "csx", 2 * n, True), arr(st, "csy", 2 * m, True), n, m]
    def env(self, a): return Env(out=a[0], x=a[1], y=a[2], n=a[3], m=a[4])
    def pre(self, e):
        A = e.st.arrays
        return [("sizes", and_(cmp(">=", e.n, 0), cmp("<=", e.n, self.LIM), cmp(">=", e.m, 0), cmp("<=", e.m, self.LIM))),
                ("output size", cmp(">=", A[e.out.obj].size, e.out.off + 2 * e.n * e.m)),
                ("x series", cmp(">=", A[e.x.obj].size, e.x.off + 2 * e.n)), ("y series", cmp(">=", A[e.y.obj].size, e.y.off + 2 * e.m))]
    def mods(self, e): return [e.out]
    def val(self, e, c):
        x, y = reader(e, e.x), reader(e, e.y)
        if c: return lambda i, j: x(2 * i) * y(2 * j + 1) + x(2 * i + 1) * y(2 * j)
        return lambda i, j: x(2 * i) * y(2 * j) - x(2 * i + 1) * y(2 * j + 1)
    def lay(self, e, c): return LMatPair(e.m, c)
    def post(self, e):
        n = lambda i, j: and_(cmp("<", i, e.n), cmp("<", j, e.m))
        return [("cosines", ("arr", e.out, self.lay(e, 0), n, self.val(e, 0))), ("sines", ("arr", e.out, self.lay(e, 1), n, self.val(e, 1)))]
    def reals(self, ex): return [("cos", 2, self.val(self.e, 0)), ("sin", 2, self.val(self.e, 1))]
    def arrays(self, ex): return {self.e.out.obj: [(self.lay(self.e, 0), "cos", self.val(self.e, 0)), (self.lay(self.e, 1), "sin", self.val(self.e, 1))]}
class Eval2D(Contract):
    """sum of all n m products A cos + B sin"""
    name = "fs_eval_2d"
    LIM = 1 << 24
    cache = {}
    def build(self, ex, st):
        n, m = ivar("n"), ivar("m")
        return [arr(st, "ab", 2 * n * m, True), arr(st, "cs", 2 * n * m, True), n, m]
    def env(self, a): return Env(ab=a[0], cs=a[1], n=a[2], m=a[3])
    def pre(self, e):
        A = e.st.arrays
        return [("sizes", and_(cmp(">=", e.n, 0), cmp("<=", e.n, self.LIM), cmp(">=", e.m, 0), cmp("<=", e.m, self.LIM))),
                ("coefficients", cmp(">=", A[e.ab.obj].size, e.ab.off + 2 * e.n * e.m)), ("series", cmp(">=", A[e.cs.obj].size, e.cs.off + 2 * e.n * e.m))]
    def total(self, e):
        st = e.st0
        if st.arrays[e.ab.obj].writes or st.arrays[e.cs.obj].writes: raise Unsupported("sums over a partially written array")
        key = tuple(st.arrays[p.obj].base + repr(p.off) for p in (e.ab, e.cs))
        nm = "FS2D%d" % self.cache.setdefault(key, len(self.cache))
        ab, cs = reader(e, e.ab), reader(e, e.cs)
        def up(st, k):           # sum of the first k products
            if eq(st, k, 0): return real(0), 0
            if ge(st, k, 1): return app(nm, k - 1) + ab(2 * k - 2) * cs(2 * k - 2) + ab(2 * k - 1) * cs(2 * k - 1), 1
        Spec(nm, lambda k: k, up, base=lambda k: [cmp("==", k, 0)])
        return lambda k: app(nm, k)
    def result(self, ex, e): return None
    def post(self, e): return [("sum of all products", ("ret", self.total(e)(e.n * e.m)))]
    def reals(self, ex): return [("sum", 1, self.total(self.e))]
CosSinNeg(); CosSin2D(); Eval2D()
