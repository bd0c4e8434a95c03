"""Contracts: time-dependent evaluation (C08).

A coefficient set holds time series of coefficients cv[i], i < ncoef, at the nodes ct and the position offset[i] of each of them:
+-(n(n+1)/2 + |m|), negative for the sine terms. Interpolation of a set adds the value of each series to the element of its position
in the array of (cosine, sine) pairs; the sets are added in the order of their list to zeros."""
from contract import *
from specs import *
import prover as P
from prover import L1, LPair
from k_series import arr, DEGMAX
import k_bisect as B_, k_model as M_

ACC = {}                 # name of the sum -> (number of the position, value) of the term i
def _acc(name):
    def unfold(st, q, i):
        if not isinstance(i, IP) and i == 0: return real(0), 0
        if ge(st, i, 1):
            r = ACC[name](st, q, i - 1)
            if r is not None: return app(name, q, i - 1) + r, 1
        elif eq(st, i, 0): return real(0), 0
    def base(q, i): return [cmp("==", i, 0)] + ACC[name].conds(q, i - 1)
    Spec(name, lambda q, i: i, unfold, base=base)
for n in ("ADDED", "SETS"): _acc(n)

class Terms:
    """terms val(i) added to the element number pos(i) = 2|offset[i]| + (offset[i] < 0)"""
    def __init__(self, off, val): self.off = off; self.val = val
    def conds(self, q, i):
        o = self.off(i); return [cmp("<", o, 0), cmp("==", q, 2 * o), cmp("==", q, 1 - 2 * o)]
    def __call__(self, st, q, i):
        o = self.off(i); neg = cmp("<", o, 0); neg = neg if isinstance(neg, bool) else decide(st, neg)
        if neg is None: return None
        c = cmp("==", q, 1 - 2 * o if neg else 2 * o); c = c if isinstance(c, bool) else decide(st, c)
        return None if c is None else self.val(i) if c else real(0)

class SetInterp0(Contract):
    """coef[pos(i)] += value of the series i at the time, for all series; nothing else is written"""
    name = "_coeff_set_interp0"; ntrace = 0
    basis = "get_interp0_basis"; evalfn = "interp0_eval"; minn = 1
    NC = 1 << 40
    def build(self, ex, st):
        d = ivar("degree"); st.assume(and_(cmp(">=", d, 0), cmp("<=", d, DEGMAX)))
        nt, nc = ivar("ntime"), ivar("ncoef"); st.assume(and_(cmp(">=", nt, self.minn), cmp("<=", nt, 1 << 20), cmp(">=", nc, 0), cmp("<=", nc, 1 << 20)))
        ct = B_.sorted_array(st, "ct", nt, True); cv = arr(st, "cv", nc * nt, True)
        off = arr(st, "offset", nc, True, kind="int"); n = TRI(d + 1)
        P.RELFACTS[st.arrays["offset"].base] = lambda idxs: [zb(implies(and_(cmp("<=", 0, i), cmp("<", i, nc)), and_(cmp("<", self.at(st, i), n), cmp(">", self.at(st, i), -n)))) for i in idxs]
        st.cells[("model",)] = {"sh_model": M_.valid(), "coef": arr(st, "coef", 2 * n), "coefsets": cexec.UNDEF, "time_last": cexec.UNDEF, "ncoefset": cexec.UNDEF}
        st.cells[("set",)] = {"arr_ct": cexec.UNDEF, "arr_cv": cexec.UNDEF, "arr_cm": cexec.UNDEF, "cm": cexec.UNDEF, "ct": ct, "cv": cv, "offset": off, "ntime": nt, "ncoef": nc,
                              "coeff_set_interp": cexec.UNDEF, "spline_order": self.minn, "degree": d}
        st.names[("model",)] = "model"; st.names[("set",)] = "coefset"
        self.nt, self.nc = nt, nc
        return [rvar("time"), Ref(("model",)), Ref(("set",))]
    @staticmethod
    def at(st, i): return P.aread_int(st, st.arrays["offset"], i)
    def env(self, a): return Env(time=a[0], model=a[1], coefset=a[2])
    def mods(self, e): return [Ptr("coef", 0)]
    def sum(self, e):
        c = REG[self.basis]; st = e.st0
        e2 = c.env([e.time, Ptr("ct", 0), self.nt]); e2.st = e2.st0 = st; e2.ex = e.ex
        b = c.result(e.ex, e2); w = [valof(x) for x in b["b"][:c.order]]
        val = lambda i: sum((w[k] * P.aread(st, st.arrays["cv"], i * self.nt + b["i"] + k) for k in range(1, c.order)), w[0] * P.aread(st, st.arrays["cv"], i * self.nt + b["i"]))
        ACC["ADDED"] = Terms(lambda i: self.at(st, i), val)
        old = lambda q: P.aread(st, st.arrays["coef"], q)
        return lambda u, q: old(q) + app("ADDED", q, u)
    def accum(self, ex): f = self.sum(self.e); return {"coef": [(L1(), "old+sum", f)]}
    def post(self, e):
        f = self.sum(e)
        return [("coefficients with the interpolated series added at their positions", ("arr", Ptr("coef", 0), L1(), lambda k: cmp("<", k, e.st0.arrays["coef"].size), lambda k: f(self.nc, k)))]
class SetInterp1(SetInterp0):
    name = "_coeff_set_interp1"
    basis = "get_interp1_basis"; evalfn = "interp1_eval"; minn = 2
SetInterp0(); SetInterp1()

# ---------------------------------------------------------------- sum of the sets
class SetFun(Fun):
    """interpolation function stored in the set number idx"""
    def __init__(self, idx): self.name = "(coefset)"; self.idx = idx
class AnySet(Contract):
    """the common contract of _coeff_set_interp0 and _coeff_set_interp1: adds the contribution of the set at the time"""
    name = "(coefset)"
    def env(self, a): return Env(time=a[0], model=a[1], coefset=a[2])
    def call(self, ex, st, args):
        f = ex.callee; e = self.env(args)
        if not isinstance(e.coefset, Ptr) or not isinstance(f, SetFun): raise Unsupported("coefficient set")
        a = st.arrays[e.coefset.obj]
        if a.kind != "struct": raise Unsupported("coefficient set")
        ex.bounds(st, e.coefset.obj, a, e.coefset.off, "argument")
        ex.oblige(st, "pre", "function of the same set", cmp("==", f.idx, e.coefset.off))
        ex.oblige(st, "pre", "time is not NaN", not_(nanof(e.time)))
        m = ex.load(st, ("cell", e.model.cell, e.model.path)); p = m["coef"]
        if not isinstance(p, Ptr): raise Unsupported("coefficients")
        ex.oblige(st, "pre", "array of coefficients", and_(cmp("==", p.off, 0), cmp(">=", st.arrays[p.obj].size, 2 * TRI(ivar("degree") + 1))))
        new = st.copy(); new.touched = st.touched; new.touched_arr = st.touched_arr
        o = st.arrays[p.obj]; b = o.clone(); b.base = fresh_name(o.label); b.writes = ()
        if o.readonly: ex.oblige(st, "frame", "writes the read-only %s" % o.label, False)
        t = valof(e.time); i = e.coefset.off; old = st.copy()
        P.FACTS.setdefault(b.base, []).append(P.ArrFact(L1(), lambda k: True, lambda k: P.aread(old, o, k) + app("CONTRIB", t, i, k), "(coefset)"))
        new.arrays[p.obj] = b; new.touched_arr.add(p.obj)
        return [(new, None)]
class Sum:
    def __init__(self, time): self.time = time
    def conds(self, q, i): return []
    def __call__(self, st, q, i): return app("CONTRIB", self.time, i, q)
class CoeffInterp(Contract):
    """coef = sum of the contributions of all sets at the time, from zeros; the time is remembered"""
    name = "_coeff_interp"; ntrace = 0
    def build(self, ex, st):
        d = ivar("degree"); st.assume(and_(cmp(">=", d, 0), cmp("<=", d, DEGMAX)))
        n = TRI(d + 1); self.n = ivar("ncoefset"); st.assume(and_(cmp(">=", self.n, 0), cmp("<=", self.n, 1 << 20)))
        T = ex.ty.resolve("COEF_SET"); a = P.Arr("sets", self.n, ex.ty.size(T), "struct", True); st.arrays["sets"] = a
        def field(ex, st, i, name):
            if name == "coeff_set_interp": return SetFun(i)
            raise Unsupported("member %s of a coefficient set" % name)
        a.extra = field
        st.cells[("model",)] = {"sh_model": {"nterm": n, "degree": d}, "coef": arr(st, "coef", 2 * n), "coefsets": Ptr("sets", 0), "time_last": D(z3.Bool("time_last.nan"), rvar("time_last")), "ncoefset": self.n}
        st.names[("model",)] = "model"
        return [rvar("time"), Ref(("model",))]
    def env(self, a): return Env(time=a[0], model=a[1])
    def mods(self, e): return [Ptr("coef", 0), Ref(("model",))]
    def sum(self, e):
        ACC["SETS"] = Sum(e.time); return lambda u, q: app("SETS", q, u)
    def accum(self, ex): return {"coef": [(L1(), "sum of sets", self.sum(self.e), lambda k: cmp("<", k, self.e.st0.arrays["coef"].size))]}
    def post(self, e):
        f = self.sum(e); m = e.st.cells[("model",)]; m0 = e.st0.cells[("model",)]
        return [("coefficients are the sum of all sets", ("arr", Ptr("coef", 0), L1(), lambda k: cmp("<", k, e.st0.arrays["coef"].size), lambda k: f(self.n, k))),
                ("time of the coefficients", ("cellval", m["time_last"], e.time))] + [("%s is unchanged" % k, ("prop", M_.samev(m[k], m0[k]))) for k in m0 if k != "time_last"]
    def call(self, ex, st, args):
        """callers see the contents of the array as one value, a function of the time"""
        e = self.env(args)
        if not isinstance(e.model, Ref): raise Unsupported("unknown model")
        m = ex.load(st, ("cell", e.model.cell, e.model.path)); p = m.get("coef")
        if not isinstance(p, Ptr) or st.arrays[p.obj].extra is None or m.get("sh_model") != M_.VALID: raise Unsupported("unknown model")
        ex.oblige(st, "pre", "_coeff_interp: time is not NaN", not_(nanof(e.time)))
        new = st.copy(); new.touched = st.touched; new.touched_arr = st.touched_arr; o = st.arrays[p.obj].extra.cells[0]
        new.arrays[o] = new.arrays[o].write(0, content(valof(e.time))); new.touched_arr.add(o)
        ex.store(new, ("cell", e.model.cell, e.model.path + ("time_last",)), e.time)
        return [(new, None)]
def content(t): return app("COEFS", t)
AnySet(); CoeffInterp()

# ---------------------------------------------------------------- structures
def sub(cls):
    """the contract of the nested single-time model"""
    c = cls.__new__(cls); c.path = ("sh_model",); return c
TSPTR = ("coef", "coefsets")
class ModelTSReset(Contract):
    """nothing is set"""
    name = "_model_ts_reset"; ntrace = 0; inline = True
    def build(self, ex, st):
        st.cells[("model",)] = {"sh_model": {}}; st.names[("model",)] = "model"; return [Ref(("model",))]
    def env(self, a): return Env(model=a[0])
    def mods(self, e): return [Ref(("model",))]
    def post(self, e):
        m = e.st.cells[("model",)]
        return sub(M_.ModelReset).post(e) + [(k, ("prop", M_.isnull(m.get(k)))) for k in TSPTR] + [("ncoefset", ("cellval", m.get("ncoefset"), 0)), ("time_last", ("cellval", m.get("time_last"), real(0)))]
class ModelTSDestroy(ModelTSReset):
    """all the arrays are released, once, and nothing is set"""
    name = "_model_ts_destroy"
    def cases(self): return [(k, c) for k in range(len(M_.ARRAYS) + 1) for c in (0, 1)]
    def casecond(self, e, case): return True
    def build(self, ex, st):
        c = M_.ModelDestroy.__new__(M_.ModelDestroy); c.case = self.case[0]; r = c.build(ex, st); self.heap = list(st.ghost["heap"])
        m = {"sh_model": st.cells[("model",)], "coef": NULL, "coefsets": cexec.Opaque("sets"), "ncoefset": ivar("ncoefset"), "time_last": rvar("time_last")}
        if self.case[1]: m["coef"] = arr(st, "coef", ivar("size")); st.ghost["heap"] = st.ghost["heap"] + ["coef"]; self.heap.append("coef")
        st.cells[("model",)] = m
        return r
    def mods(self, e): return ModelTSReset.mods(self, e) + [Ptr(k, 0) for k in self.heap]
    def post(self, e): return ModelTSReset.post(self, e) + M_.released(e)
class ModelTSInit(ModelTSReset):
    """0: the single-time model is initialised, the coefficients are allocated, the sets are stored and the cache is empty; otherwise nothing is set and nothing is left allocated"""
    name = "_model_ts_init"
    def build(self, ex, st):
        a = sub(M_.ModelInit).build(ex, st); st.cells[("model",)] = {"sh_model": {}}
        st.arrays["sets"] = P.Arr("sets", ivar("ncoefset"), ex.ty.size(ex.ty.resolve("COEF_SET")), "struct", True)
        return a[:5] + [Ptr("sets", 0), ivar("ncoefset")] + a[5:]
    def env(self, a): return Env(model=a[0], is_internal=a[1], degree=a[2], coord_in=a[3], coord_out=a[4], sets=a[5], n=a[6], sp=a[7], sg=a[8])
    def post(self, e):
        m = e.st.cells[("model",)]
        if isinstance(e.ret, IP): return [("status", ("prop", False))]
        if e.ret != 0: return ModelTSReset.post(self, e) + M_.released(e)
        c = m["coef"]; out = sub(M_.ModelInit).post(e)
        if isinstance(c, MaybeNull): out.append(("coef is allocated", ("prop", not_(c.cond)))); c = c.ptr
        out += [("start of coef", ("prop", cmp("==", c.off, 0))), ("size of coef", ("prop", cmp("==", e.st.arrays[c.obj].size, 2 * TRI(e.degree + 1)))), ("coef is not released", ("prop", not e.st.arrays[c.obj].freed)),
                ("coef is not shared", ("prop", all((v.ptr if isinstance(v, MaybeNull) else v).obj != c.obj for k, v in m["sh_model"].items() if k in M_.ARRAYS)))]
        return out + [("sets", ("prop", M_.samev(m["coefsets"], e.sets))), ("number of sets", ("cellval", m["ncoefset"], e.n)), ("cache is empty", ("prop", nanof(m["time_last"])))]
M_.ModelInit.inline = True
ModelTSReset(); ModelTSDestroy(); ModelTSInit()

SETPTR = ("arr_ct", "arr_cv", "arr_cm", "ct", "cv", "cm", "offset", "coeff_set_interp"); SETINT = ("ntime", "ncoef", "spline_order", "degree")
class SetReset(Contract):
    """nothing is set"""
    name = "_coefset_reset"; ntrace = 0; inline = True
    def build(self, ex, st):
        st.cells[("set",)] = {}; st.names[("set",)] = "coefset"; return [Ref(("set",))]
    def env(self, a): return Env(coefset=a[0])
    def mods(self, e): return [Ref(("set",))]
    def post(self, e):
        m = e.st.cells[("set",)]
        return [(k, ("prop", M_.isnull(m.get(k)))) for k in SETPTR] + [(k, ("cellval", m.get(k), 0)) for k in SETINT]
class SetDestroy(SetReset):
    """the positions are released and the arrays given back, once each, and nothing is set"""
    name = "_coefset_destroy"
    def cases(self): return [0, 1, 2]                # nothing set, arrays only, everything
    def casecond(self, e, case): return True
    def build(self, ex, st):
        m = {k: NULL for k in SETPTR}; m.update({k: ivar(k) for k in SETINT}); st.ghost["heap"] = []
        if self.case:
            for k in SETPTR[:3]: m[k] = Ref(("pyarray", k)); st.cells[m[k].cell] = {}
        if self.case == 2: m["offset"] = arr(st, "offset", ivar("ncoef"), kind="int"); st.ghost["heap"] = ["offset"]
        st.cells[("set",)] = m; st.names[("set",)] = "coefset"; return [Ref(("set",))]
    def mods(self, e): return SetReset.mods(self, e) + [Ptr("offset", 0)]
    def post(self, e): return SetReset.post(self, e) + M_.released(e) + [("arrays are given back once", ("prop", givenback(e.st) == (sorted(SETPTR[:3]) if self.case else [])))]
def givenback(st): return sorted(r.cell[1] if isinstance(r, Ref) else "?" for r in st.ghost.get("decref", ()))
class SetInit(SetReset):
    """0: every series has the position of its degree and order (valid ones: |m| <= n), below the largest degree, and the interpolation function of the order;
    otherwise nothing is set, nothing is left allocated and the arrays are given back"""
    name = "_coefset_init"
    def build(self, ex, st):
        nt, nc = ivar("ntime"), ivar("ncoef"); st.assume(and_(cmp(">=", nt, 0), cmp("<=", nt, 1 << 40), cmp(">=", nc, 0), cmp("<=", nc, 1 << 40)))
        out = [Ref(("set",))]
        for k, p, dims in (("arr_ct", arr(st, "ct", nt, True), [nt]), ("arr_cv", arr(st, "cv", nc * nt, True), [nc, nt]), ("arr_cm", arr(st, "cm", 2 * nc, True, unit=4, kind="int"), [nc, 2])):
            st.cells[("dims", k)] = dims; st.cells[("pyarray", k)] = {"data": p, "nd": len(dims), "dimensions": Ref(("dims", k), (0,))}; out.append(Ref(("pyarray", k)))
        b = st.arrays["cm"].base
        P.RELFACTS[b] = lambda idxs: [zb(and_(cmp("<=", -2**31, self.cm(st, i)), cmp("<", self.cm(st, i), 2**31))) for i in idxs]
        st.cells[("set",)] = {}; st.names[("set",)] = "coefset"
        self.k = ivar("any series"); st.assume(and_(cmp("<=", 0, self.k), cmp("<", self.k, nc)))
        return out + [ivar("spline_order")]
    @staticmethod
    def cm(st, i): return P.aread_int(st, st.arrays["cm"], i)
    def env(self, a): return Env(coefset=a[0], order=a[4])
    def position(self, e):
        def f(i):
            n, m = self.cm(e.st0, 2 * i), self.cm(e.st0, 2 * i + 1); return iz(z3.If(zb(cmp("<", m, 0)), zi(m - TRI(n)), zi(TRI(n) + m)))
        return f
    def valid(self, e, i): n, m = self.cm(e.st0, 2 * i), self.cm(e.st0, 2 * i + 1); return and_(cmp("<=", 0, n), cmp("<=", m, n), cmp("<=", 0 - n, m))
    def heap(self, ex): return [(L1(), "position", self.position(self.e))]
    def props(self, ex):
        e = self.e
        return [("series below are valid", 1, lambda s, i: implies(cmp("<", self.k, i), self.valid(e, self.k))),
                ("degrees below", 2, lambda s, i, d: implies(cmp("<", self.k, i), cmp("<=", self.cm(e.st0, 2 * self.k), d)))]
    def post(self, e):
        m = e.st.cells[("set",)]
        if isinstance(e.ret, IP): return [("status", ("prop", False))]
        if e.ret != 0: return SetReset.post(self, e) + M_.released(e) + [("arrays are given back once", ("prop", givenback(e.st) == sorted(SETPTR[:3])))]
        o = m["offset"]; out = [("arrays are kept", ("prop", givenback(e.st) == []))]
        if isinstance(o, MaybeNull): out.append(("offset is allocated", ("prop", not_(o.cond)))); o = o.ptr
        out += [("offset is not released", ("prop", not e.st.arrays[o.obj].freed)), ("size of offset", ("prop", and_(cmp("==", o.off, 0), cmp("==", e.st.arrays[o.obj].size, ivar("ncoef")))))]
        out += [(k, ("prop", M_.samev(m[k], Ptr(p, 0)))) for k, p in (("ct", "ct"), ("cv", "cv"), ("cm", "cm"))] + [(k, ("prop", M_.samev(m[k], Ref(("pyarray", k))))) for k in SETPTR[:3]]
        out += [(k, ("cellval", m[k], v)) for k, v in (("ntime", ivar("ntime")), ("ncoef", ivar("ncoef")), ("spline_order", e.order))]
        out += [("positions", ("arr", o, L1(), lambda k: cmp("<", k, ivar("ncoef")), self.position(e))),
                ("degrees and orders are valid", ("prop", self.valid(e, self.k))), ("positions inside of the triangle of the largest degree", ("prop", (lambda x, n: and_(cmp("<", x, n), cmp("<", 0 - x, n)))(self.position(e)(self.k), TRI(m["degree"] + 1)))),
                ("degree is not negative", ("prop", cmp(">=", m["degree"], 0)))]
        f = m["coeff_set_interp"]
        for k, name in ((1, "_coeff_set_interp0"), (2, "_coeff_set_interp1")): out.append(("function of the order %d" % k, ("prop", implies(cmp("==", e.order, k), isinstance(f, Fun) and f.name == name))))
        return out + [("order is supported", ("prop", or_(cmp("==", e.order, 1), cmp("==", e.order, 2))))]
SetReset(); SetDestroy(); SetInit()
