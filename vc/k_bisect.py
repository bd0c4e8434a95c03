"""Contracts: bisection (C01) and interpolation bases (C02)."""
from contract import *
from specs import *
import prover as P
from k_series import arr

NMAX = 1 << 48
def sorted_array(st, obj, n, strict=False):
    """read-only array of n doubles in ascending order"""
    p = arr(st, obj, n, readonly=True)
    base = st.arrays[obj].base
    def rel(idxs):
        out = []
        for i in idxs:
            for j in idxs:
                if i is j: continue
                c = and_(cmp("<=", 0, i), cmp("<", i, j), cmp("<", j, n))
                if c is False: continue
                out.append(zb(implies(c, cmp("<" if strict else "<=", sel(base, i), sel(base, j)))))
        return out
    P.RELFACTS[base] = rel
    return p

class BisectRight(Contract):
    """-1 when there is no node, x is below the first one or NaN; otherwise the last i with v[i] <= x"""
    name = "bisect_right"
    lo, hi = "<=", "<"        # v[i] lo x hi v[i+1]
    def build(self, ex, st):
        n = ivar("n"); st.assume(and_(cmp(">=", n, 0), cmp("<=", n, NMAX)))
        return [D(z3.Bool("x.nan"), rvar("x")), sorted_array(st, "v", n), n]
    def env(self, a): return Env(x=a[0], v=a[1], n=a[2])
    def at(self, e, i): return P.aread(e.st, e.st.arrays[e.v.obj], e.v.off + i)
    def pre(self, e): return [("number of nodes", and_(cmp(">=", e.n, 0), cmp("<=", e.n, NMAX))), ("node array", cmp(">=", e.st.arrays[e.v.obj].size, e.v.off + e.n)), ("ascending nodes", e.st.arrays[e.v.obj].base in P.RELFACTS)]
    def left(self, e, i): return cmp(self.lo, self.at(e, i), valof(e.x))
    def right(self, e, i): return cmp(self.hi, valof(e.x), self.at(e, i + 1))
    def result(self, ex, e): return fresh_int("idx")
    def post(self, e):
        r, n = e.ret, e.n
        out = or_(cmp("<", n, 1), nanof(e.x), and_(cmp(">=", n, 1), not_(self.left(e, 0))))
        below = and_(cmp(">=", r, -1), cmp("<", r, n))
        return [("range", ("prop", zb(or_(below, and_(cmp("==", n, 0), cmp("==", r, -1)))))),
                ("no interval", ("prop", zb(implies(out, cmp("==", r, -1))))),
                ("an interval", ("prop", zb(implies(not_(out), cmp(">=", r, 0))))),
                ("left node", ("prop", zb(implies(cmp(">=", r, 0), self.left(e, r))))),
                ("right node", ("prop", zb(implies(and_(cmp(">=", r, 0), cmp("<", r, n - 1)), self.right(e, r)))))]
    def props(self, ex):
        e = self.e; st0 = e.st0
        at = lambda s, i: P.aread(s, s.arrays[e.v.obj], i)
        return [("v[i]%sx" % self.lo, 1, lambda s, i: cmp(self.lo, at(s, i), valof(e.x))), ("x%sv[i+1]" % self.hi, 1, lambda s, i: cmp(self.hi, valof(e.x), at(s, i + 1)))]
class BisectLeft(BisectRight):
    """the last i with v[i] < x"""
    name = "bisect_left"
    lo, hi = "<", "<="
BisectRight(); BisectLeft()

class Basis0(Contract):
    name = "get_interp0_basis"
    minn = 1; order = 1
    def build(self, ex, st):
        n = ivar("n")
        return [D(z3.Bool("x.nan"), rvar("x")), sorted_array(st, "v", n, True), n]
    def env(self, a): return Env(x=a[0], v=a[1], n=a[2])
    def pre(self, e): return [("number of nodes", and_(cmp(">=", e.n, self.minn), cmp("<=", e.n, NMAX))), ("node array", cmp(">=", e.st.arrays[e.v.obj].size, e.v.off + e.n)), ("ascending nodes", e.st.arrays[e.v.obj].base in P.RELFACTS)]
    def result(self, ex, e):
        def f(k): return iz(z3.Function("%s.%s[%s%+r]" % (self.name, k, e.st.arrays[e.v.obj].base, e.v.off), z3.BoolSort(), z3.RealSort(), z3.IntSort(), z3.IntSort())(zb(nanof(e.x)), zr(valof(e.x)), zi(e.n)))
        b = {"i0": f("i0"), "i": f("i"), "order": self.order, "b": [cexec.UNDEF] * 6}
        b["b"] = [real(1)] + b["b"][1:]
        if self.order == 2:
            w = dict((k, v) for (k, (_, _, v)) in self.weights(e, b)); b["b"] = [w["left weight"], w["right weight"]] + b["b"][2:]
        return b
    def at(self, e, i): return P.aread(e.st, e.st.arrays[e.v.obj], e.v.off + i)
    def idx(self, e, b): return b["i"]
    def post(self, e):
        b = e.ret; i0, i, x = b["i0"], b["i"], valof(e.x)
        xn = nanof(e.x); n = e.n; last = n - self.minn
        out = [("order", ("prop", cmp("==", b["order"], self.order))),
               ("segment in range", ("prop", and_(cmp(">=", i, 0), cmp("<=", i, last)))),
               ("below the nodes or NaN: i0 = -1", ("prop", zb(implies(or_(xn, cmp("<", x, self.at(e, 0))), cmp("==", i0, -1))))),
               ("inside or above: i0 >= 0", ("prop", zb(implies(and_(not_(xn), cmp(">=", x, self.at(e, 0))), cmp(">=", i0, 0))))),
               ("i0 < n", ("prop", cmp("<", i0, n))),
               ("segment is i0 clipped", ("prop", zb(and_(implies(cmp("<", i0, 0), cmp("==", i, 0)), implies(and_(cmp(">=", i0, 0), cmp("<=", i0, last)), cmp("==", i, i0)), implies(cmp(">", i0, last), cmp("==", i, last)))))),
               ("left node", ("prop", zb(implies(cmp(">=", i0, 0), cmp("<=", self.at(e, i0), x))))),
               ("right node", ("prop", zb(implies(and_(cmp(">=", i0, 0), cmp("<", i0, n - 1)), cmp("<", x, self.at(e, i0 + 1))))))]
        return out + self.weights(e, b)
    def weights(self, e, b): return [("weight", ("cellval", b["b"][0], real(1)))]
class Basis1(Basis0):
    name = "get_interp1_basis"
    minn = 2; order = 2
    def weights(self, e, b):
        i = b["i"]; w = (valof(e.x) - self.at(e, i)) / (self.at(e, i + 1) - self.at(e, i))
        w = mkd(nanof(e.x), w)
        return [("right weight", ("cellval", b["b"][1], w)), ("left weight", ("cellval", b["b"][0], mkd(nanof(e.x), real(1) - valof(w))))]
class Basis1d(Basis1):
    name = "get_interp1d1_basis"
    def weights(self, e, b):
        i = b["i"]; w = real(1) / (self.at(e, i + 1) - self.at(e, i))
        return [("right weight", ("cellval", b["b"][1], w)), ("left weight", ("cellval", b["b"][0], real(0) - w))]
Basis0(); Basis1(); Basis1d()

class Eval0(Contract):
    name = "interp0_eval"
    order = 1
    def build(self, ex, st):
        n = ivar("n"); i = ivar("i")
        st.assume(and_(cmp(">=", i, 0), cmp("<=", i + self.order, n), cmp("<=", n, NMAX)))
        st.cells[("basis",)] = {"i0": ivar("i0"), "i": i, "order": self.order, "b": [D(z3.Bool("b%d.nan" % k), rvar("b%d" % k)) for k in range(6)]}
        a = arr(st, "c", n, readonly=True); st.arrays["c"].nanok = True
        return [Ref(("basis",)), a]
    def env(self, a): return Env(b=a[0], c=a[1])
    def pre(self, e):
        b = e.b0 = e.st.cells[e.b.cell]
        return [("segment inside of the values", and_(cmp(">=", b["i"], 0), cmp("<=", e.c.off + b["i"] + self.order, e.st.arrays[e.c.obj].size)))]
    def post(self, e):
        b = e.st0.cells[e.b.cell]; v = lambda k: P.aread(e.st0, e.st0.arrays[e.c.obj], e.c.off + b["i"] + k)
        return [("value", ("ret", self.val(b, v)))]
    def val(self, b, v): return v(0)
class Eval1(Eval0):
    name = "interp1_eval"
    order = 2
    def val(self, b, v): return mkd(or_(nanof(b["b"][0]), nanof(b["b"][1])), valof(b["b"][0]) * v(0) + valof(b["b"][1]) * v(1))
Eval0(); Eval1()
