"""Contracts: spherical harmonic sums (C05)."""
from contract import *
from specs import *
import specs
from prover import L1, Spec, SPECS
from k_series import arr, DEGMAX

class Sums:
    """partial sums over the arrays of one call; the functions are named after the arrays"""
    cache = {}
    def __init__(self, e):
        st = e.st
        rd = lambda p: (lambda i: P.aread(st, st.arrays[p.obj], p.off + i))
        self.e = e
        g, L, R = rd(e.coef), rd(e.lcs), rd(e.rrp)
        P_ = rd(e.lp) if getattr(e, "lp", None) is not None else None
        D_ = rd(e.ldp) if getattr(e, "ldp", None) is not None else None
        def ident(*ks):          # the sums are named after the contents of the arrays they depend on
            key = ks[:1]
            for k in ks[1:]:
                p = getattr(e, k); a = st.arrays[p.obj]
                if a.writes: raise Unsupported("sums over a partially written array")
                key += (a.base, repr(p.off))
            return "%s%d" % (ks[0], Sums.cache.setdefault(key, len(Sums.cache)))
        self.names = {}
        pos = lambda i, j: TRI(i) + j
        even = lambda i, j: g(2 * pos(i, j)) * L(2 * j) + g(2 * pos(i, j) + 1) * L(2 * j + 1)       # g cos(m lon) + h sin(m lon)
        odd = lambda i, j: g(2 * pos(i, j)) * L(2 * j + 1) - g(2 * pos(i, j) + 1) * L(2 * j)        # g sin(m lon) - h cos(m lon)
        terms = {}
        if P_ is not None:
            terms["v"] = lambda i, j: even(i, j) * P_(pos(i, j))
            terms["az"] = lambda i, j: real(j) * odd(i, j) * P_(pos(i, j))
        if D_ is not None: terms["el"] = lambda i, j: even(i, j) * D_(pos(i, j))
        if P_ is not None:
            for k, f in (("int", lambda i: real(i + 1)), ("ext", lambda i: real(0) - real(i))):
                self.names["rd" + k] = ident("SUMrd" + k, "coef", "lcs", "lp", "rrp")
                self._total("rd" + k, lambda i, f=f: f(i) * R(i) * self.row("v", i, i))
        for k, f in terms.items():
            l = "ldp" if k == "el" else "lp"
            self.names["row", k] = ident("ROW" + k, "coef", "lcs", l); self.names[k] = ident("SUM" + k, "coef", "lcs", l, "rrp")
            self._row(k, f)
            self._total(k, lambda i, k=k: R(i) * self.row(k, i, i))
        # the limit of the azimuth component at the poles (c -> 0: the terms of order 1)
        pole = lambda s: (lambda i: R(i) * app("S", i, 1) * app("G", s, i, 1) * odd(i, 1))
        nm = ident("POLE", "coef", "lcs", "rrp")
        def up(st, s, n):
            if eq(st, n, 0): return real(0), 0
            if ge(st, n, 1): return app(nm, s, n - 1) + pole(s)(n), 1
        Spec(nm, lambda s, n: n, up, base=lambda s, n: [cmp("==", n, 0)])
        self.pole = lambda s, n: app(nm, s, n)
    def _row(self, k, f):
        nm = self.names["row", k]
        def un(st, i, j):
            if eq(st, j, 0): return f(i, j), 0
            if ge(st, j, 1): return app(nm, i, j - 1) + f(i, j), 1
        Spec(nm, lambda i, j: j, un, base=lambda i, j: [cmp("==", j, 0)])
    def _total(self, k, f):
        nm = self.names[k]
        def un(st, i):
            if eq(st, i, 0): return f(i), 0
            if ge(st, i, 1): return app(nm, i - 1) + f(i), 1
        Spec(nm, lambda i: i, un, base=lambda i: [cmp("==", i, 0)])
    def row(self, k, i, j): return app(self.names["row", k], i, j)
    def total(self, k, i): return app(self.names[k], i)

class EvalV(Contract):
    """vpot = rad sum_n R_n sum_m (g cos(m lon) + h sin(m lon)) P_nm"""
    name = "shc_eval_v"; cellouts = True
    kinds = ("v",)
    params = ["vpot", "degree", "rad", "coef", "lcs", "lp", "rrp"]
    outs = ("vpot",)
    def arg(self, ex, st, k):
        d = ivar("degree")
        if k in ("vpot", "dvel", "dvaz", "dvrd"):
            st.cells[("out", k)] = UNDEF_; return Ref(("out", k))
        if k == "degree": return d
        if k == "coef": return arr(st, k, 2 * TRI(d + 1), True)
        if k == "lcs": return arr(st, k, 2 * d + 2, True)
        if k in ("lp", "ldp"): return arr(st, k, TRI(d + 1), True)
        if k == "rrp": return arr(st, k, d + 1, True)
        if k in ("rad", "elv"): return rvar(k)
        if k == "is_internal": return ivar(k)
        if k == "mode": return ivar(k)
    def build(self, ex, st): return [self.arg(ex, st, k) for k in self.params]
    def env(self, a):
        specs.LEG.update(S="m", lemma=False)
        return Env(**dict(zip(self.params, a)))
    def pre(self, e):
        d = e.degree
        sz = lambda p, n: cmp(">=", e.st.arrays[p.obj].size, p.off + n)
        val = lambda p, i, v: ArrClaim(p.obj, p.off, L1(), lambda k: cmp("==", k, i), lambda k: real(v))
        out = [("degree range", and_(cmp(">=", d, 0), cmp("<=", d, DEGMAX))), ("coefficients", sz(e.coef, 2 * TRI(d + 1))), ("longitude series", sz(e.lcs, 2 * d + 2)), ("radial series", sz(e.rrp, d + 1))]
        if "lp" in self.params:
            out += [("Legendre functions", sz(e.lp, TRI(d + 1))), ("P_00 = 1", val(e.lp, 0, 1)), ("cos 0 = 1", val(e.lcs, 0, 1)), ("sin 0 = 0", val(e.lcs, 1, 0))]
        if "ldp" in self.params: out += [("Legendre derivatives", sz(e.ldp, TRI(d + 1))), ("dP_00 = 0", val(e.ldp, 0, 0))]
        return out
    def sums(self, e):
        if getattr(e, "S", None) is None: e.S = Sums(e)
        return e.S
    def mods(self, e): return [getattr(e, k) for k in self.outs]
    def values(self, e):
        s = self.sums(e); return {"vpot": valof(e.rad) * s.total("v", e.degree)}
    def post(self, e):
        v = self.values(e)
        return [(k, ("cell", getattr(e, k), v[k])) for k in self.outs]
    def reals(self, ex):
        s = self.sums(self.e); e = self.e
        out = []
        for k in self.kinds:
            if k not in ("rd",): out.append(("row %s" % k, 2, lambda i, j, k=k: s.row(k, i, j)))
            for sg in (1, -1):
                if k != "rd": out.append(("%ssum %s" % ("-" if sg < 0 else "", k), 1, lambda i, k=k, sg=sg: s.total(k, i) * sg))
        if "rd" in self.kinds:
            isint = cmp("!=", e.is_internal, 0)
            out.append(("row rd", 2, lambda i, j: rite(isint, real(i + 1), real(0 - i)) * s.row("v", i, j)))
            for sg in (1, -1):
                out.append(("%ssum rd" % ("-" if sg < 0 else ""), 1, lambda i, sg=sg: rite(isint, s.total("rdint", i) * sg, s.total("rdext", i) * sg)))
        return out
from cexec import UNDEF as UNDEF_

class EvalPole(EvalV):
    """dvaz = - sum_n R_n S(n,1) G(n,1) (g_n1 sin(lon) - h_n1 cos(lon)): the limit at the poles"""
    name = "shc_eval_dvaz_pole"
    params = ["dvaz", "degree", "elv", "coef", "lcs", "rrp"]
    outs = ("dvaz",); kinds = ()
    def pre(self, e): return EvalV.pre(self, e) + [("degree is not zero", cmp(">=", e.degree, 1))]
    def values(self, e): return {"dvaz": real(0) - self.sums(e).pole(app("SIN", valof(e.elv)), e.degree)}
    def reals(self, ex):
        e = self.e; s = app("SIN", valof(e.elv)); S_ = self.sums(e)
        return [("pole sum", 1, lambda n: S_.pole(s, n)), ("S0", 1, lambda n: app("S0", n)), ("2S0/2^n", 1, lambda n: 2 * app("S0", n) / PW(2, n)),
                ("G1", 1, lambda n: rite(cmp("<=", n, 0), real(1), app("G", s, n, 1))), ("2^nG1/2", 1, lambda n: rite(cmp("<=", n, 0), real(1), PW(2, n) / 2 * app("G", s, n, 1)))]

class EvalDV(EvalV):
    """north: sum R dP (g cos + h sin); east: -sum R m P (g sin - h cos) / cos(lat), its limit at the poles; up: -sum (n+1 or -n) R P (g cos + h sin)"""
    name = "shc_eval_dv"
    kinds = ("v", "el", "az", "rd")
    params = ["dvel", "dvaz", "dvrd", "degree", "elv", "coef", "lcs", "lp", "ldp", "rrp", "is_internal"]
    outs = ("dvel", "dvaz", "dvrd")
    def values(self, e):
        s = self.sums(e); n = e.degree
        sn = app("SIN", valof(e.elv)); c = app("SQRT", (real(1) - sn) * (real(1) + sn))
        pole = cmp("<", c, real("1e-10") if False else rt("const", frac(1e-10)))
        return {"dvel": s.total("el", n),
                "dvaz": rite(pole, rite(cmp("==", n, 0), real(0), real(0) - s.pole(sn, n)), real(0) - s.total("az", n) / c),
                "dvrd": rite(cmp("!=", e.is_internal, 0), real(0) - s.total("rdint", n), real(0) - s.total("rdext", n))}
class EvalVDV(EvalDV):
    name = "shc_eval_v_dv"
    params = ["vpot", "dvel", "dvaz", "dvrd", "degree", "elv", "rad", "coef", "lcs", "lp", "ldp", "rrp", "is_internal"]
    outs = ("vpot", "dvel", "dvaz", "dvrd")
    def values(self, e):
        v = EvalDV.values(self, e); v["vpot"] = valof(e.rad) * self.sums(e).total("v", e.degree); return v
class Eval(EvalVDV):
    """mode bit 0: the potential, mode bit 1: the gradient, nothing else; the values do not depend on the mode"""
    name = "shc_eval"
    ntrace = 0
    params = ["vpot", "dvel", "dvaz", "dvrd", "degree", "mode", "elv", "rad", "coef", "lcs", "lp", "ldp", "rrp", "is_internal"]
    def cases(self): return [0, 1, 2, 3]
    def casecond(self, e, case): return cmp("==", iz(zi(e.mode) % 4), case)
    def mods(self, e):
        return [getattr(e, k) for b, ks in ((1, ("vpot",)), (2, ("dvel", "dvaz", "dvrd"))) if e.case & b for k in ks]
    def post(self, e):
        v = EvalVDV.values(self, e)
        return [(k, ("cell", getattr(e, k), v[k])) for b, ks in ((1, ("vpot",)), (2, ("dvel", "dvaz", "dvrd"))) if e.case & b for k in ks]
EvalV(); EvalPole(); EvalDV(); EvalVDV(); Eval()
