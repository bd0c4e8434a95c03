"""Contracts: recursive walkers over NumPy arrays (ARRAY_DATA): evaluating a batch is evaluating each of its points.

A view is the struct ARRAY_DATA {data, ndim, dim, stride} of an array of any rank. For an arbitrary, fixed multi-index of the
trailing dimensions the view is a sequence of cells numbered by the first index (mode "item"), or a single cell shared by all
the points (mode "whole": nothing is left to be iterated, ndim <= rank of the cell). The walker W with cell function F has to
write out[i] = F(in[i]) for every i, each cell once from the inputs of its own index; the recursive calls are used by the same
contract on views of a lower rank (the rank is the measure of the recursion). At the bottom (case "leaf") the cells are arrays
of doubles and the walker has to write the values of F themselves."""
import itertools
from contract import *
from specs import *
from prover import L1, Arr
from loops import samev
from k_series import arr
from cexec import UNDEF

class View:
    def __init__(self, name, rank=0, comps=("v",), out=False, bcast=False, byref=False, leaf=None, kind="double", nan=False, leafrank=None):
        self.nan = nan; self.leafrank = leafrank
        self.name = name; self.rank = rank; self.comps = comps; self.out = out; self.bcast = bcast; self.byref = byref; self.kind = kind
        self.leaf = leaf or ("scalar" if rank == 0 else "vec")
class Const:
    """an argument handed over unchanged"""
    def __init__(self, name, make): self.name = name; self.make = make

def struct(data, ndim, dim, stride): return {"data": data, "ndim": ndim, "dim": dim, "stride": stride}
def stride_atom(name):
    s = ivar("stride " + name); cexec.STRIDES.update(a for m in s.t for a in m); return s
def divide(off, s):
    """off / s, or None"""
    if not isinstance(off, IP): return 0 if off == 0 else None
    (m, c), = s.t.items()
    out = {}
    for k, v in off.t.items():
        k = list(k)
        for a in m:
            if a not in k: return None
            k.remove(a)
        out[tuple(k)] = v
    return mk(out)

class Walker(Contract):
    params = ()          # View and Const objects in the order of the parameters
    main = None          # name of the view whose rank drives the recursion
    ntrace = 0
    MAXEXT = 1 << 40
    def views(self): return [p for p in self.params if isinstance(p, View)]
    def view(self, name): return next(p for p in self.params if p.name == name)
    # ---- ranks
    def ranks(self, n):
        """relation of the ranks of the views"""
        m = self.view(self.main); lead = n[self.main] - m.rank
        return and_(*[cmp("<=", 0, lead)] + [and_(cmp("<=", v.rank, n[v.name]), cmp("<=", n[v.name], lead + v.rank)) if v.bcast else cmp("==", n[v.name], lead + v.rank) for v in self.views()])
    def measure(self, n): return n[self.main] - self.view(self.main).rank
    def recursive(self, modes): return modes[self.main] == "item"
    def leafcases(self): return [None]
    def cases(self):
        names = [v.name for v in self.views()]
        out = []
        for c in itertools.product(*[("item", "whole") if v.bcast else ("item",) for v in self.views()]):
            if self.recursive(dict(zip(names, c))): out.append(c)
        return out + [("leaf", c) for c in self.leafcases()]
    def isleaf(self): return self.case[0] == "leaf"
    # ---- building the views
    def build(self, ex, st):
        self.meta = {}; self.consts = {}; self.objects = {}
        return self.buildleaf(ex, st) if self.isleaf() else self.buildrec(ex, st)
    def ref(self, st, v, s):
        if not v.byref: return s
        st.cells[("view", v.name)] = s; st.names[("view", v.name)] = v.name; return Ref(("view", v.name))
    def opaque(self, st, v, mode, n, d=None):
        """a view whose cells are known by their number only"""
        cells = []
        for c in v.comps:
            o = "%s.%s" % (v.name, c); arr(st, o, d if mode == "item" else 1, not v.out); cells.append(o)
        st.arrays[v.name] = Arr(fresh_name(v.name), 0, 8, "view", True, label=v.name)
        s = stride_atom(v.name) if mode == "item" else None
        dk, sk = ("dims", v.name), ("strides", v.name)
        st.cells[dk] = [d] if mode == "item" else []; st.cells[sk] = [8 * s] if mode == "item" else []
        self.meta[v.name] = Env(view=v, cells=cells, s=s, d=d, n=n, mode=mode, dk=dk, sk=sk, read={})
        st.arrays[v.name].extra = self.meta[v.name]
        return struct(Ptr(v.name, 0), n, Ref(dk, (0,)), Ref(sk, (0,)))
    def buildrec(self, ex, st):
        d = ivar("extent"); st.assume(and_(cmp("<=", 0, d), cmp("<=", d, self.MAXEXT)))
        modes = dict(zip([v.name for v in self.views()], self.case)); n = {}; out = []
        for p in self.params:
            if isinstance(p, View):
                n[p.name] = ivar("ndim " + p.name)
                m = modes[p.name]; st.assume(and_(cmp("<=", 0, n[p.name]), cmp("<=", n[p.name], 64), cmp(">", n[p.name], p.rank) if m == "item" else cmp("<=", n[p.name], p.rank)))
                out.append(self.ref(st, p, self.opaque(st, p, m, n[p.name], d)))
            else: out.append(p.make(self, ex, st, True))
        st.assume(self.ranks(n)); self.n = n; self.d = d
        return out
    def leafview(self, ex, st, v):
        if v.leaf == "opaque": return self.opaque(st, v, "whole", ivar("rank of " + v.name) if v.leafrank or not isinstance(v.rank, int) else v.rank)
        if v.leaf == "scalar":
            p = arr(st, v.name, 1, not v.out, kind=v.kind); dims, strides, n = [], [], 0
        elif v.leaf in ("vec", "cvec"):
            k = len(v.comps)
            p = arr(st, v.name, k, not v.out); s = stride_atom(v.name) if v.leaf == "vec" else 1
            st.arrays[v.name].stride = s if v.leaf == "vec" else None
            dims, strides, n = [k], [8 * s], 1
        else:
            dims = v.leaf(self, st); p = arr(st, v.name, 1, not v.out); strides = []; sz = 1
            for x in reversed(dims): strides.insert(0, 8 * sz); sz = sz * x
            st.arrays[v.name].size = sz; n = len(dims)
        st.arrays[v.name].nanok = v.nan
        if v.nan and not v.out: st.arrays[v.name] = st.arrays[v.name].write(0, D(z3.Bool(v.name + ".nan"), rvar(v.name)))
        st.cells[("dims", v.name)] = dims; st.cells[("strides", v.name)] = strides
        self.meta[v.name] = Env(view=v, p=p, s=st.arrays[v.name].stride)
        return struct(p, n, Ref(("dims", v.name), (0,)), Ref(("strides", v.name), (0,)))
    def buildleaf(self, ex, st):
        c = {p.name: p.make(self, ex, st, False) for p in self.params if not isinstance(p, View)}
        return [self.ref(st, p, self.leafview(ex, st, p)) if isinstance(p, View) else c[p.name] for p in self.params]
    def env(self, a):
        e = Env()
        for p, v in zip(self.params, a): setattr(e, p.name, v)
        return e
    # ---- contract
    def delegate(self, e): return []       # leaf: (function, arguments, case, view of the returned value)
    def uses(self, e):
        for fn, args, case, ret in self.delegate(e):
            c = REG[fn]; c.case = case; e2 = c.env(args); e2.st = e.st; e2.st0 = e.st0; e2.ex = e.ex; e2.case = case
            yield fn, c, e2, ret
    def leafpre(self, e): return [("%s: %s" % (fn, l), g) for fn, c, e2, ret in self.uses(e) for l, g in c.pre(e2)]
    def leafpost(self, e):
        out = []
        for fn, c, e2, ret in self.uses(e):
            if ret is not None:
                a = e.st.arrays[ret]; e2.ret = P.aread_int(e.st, a, 0) if a.kind != "double" else P.aread(e.st, a, 0)
            out += [("%s: %s" % (fn, l), ("cell", self.outp(ret, 0), it[1]) if it[0] == "ret" else it) for l, it in c.post(e2)]
        return out
    def pre(self, e): return self.leafpre(e) if self.isleaf() else []
    def cell(self, e, v, k=0, c=0):
        """value of the component k of a leaf cell"""
        m = self.meta[v]; return P.aread(e.st0, e.st0.arrays[m.view.name], k)
    def outp(self, v, k):
        m = self.meta[v]; return Ptr(v, k * m.s if m.s is not None else k)
    def mods(self, e):
        if self.isleaf(): return [Ptr(o, 0) for v in self.views() if v.out for o in ([v.name] if v.leaf != "opaque" else self.meta[v.name].cells)]
        return [Ptr(c, 0) for v in self.views() if v.out for c in self.meta[v.name].cells]
    def inputs(self, read): return [x for v in self.views() if not v.out for x in read(v)]
    def key(self, ex, st, args): return "", []          # what the values depend on beside the views: from the arguments {name: value} which are not views
    def F(self, v, c, ins, key): return app("%s%s.%s.%s" % (self.name, key[0], v.name, c), *(key[1] + ins))
    def outer(self, ex, st, args, dec): pass             # obligations at a call from another function
    def recval(self, e, v, c):
        key = self.key(e.ex, e.st0, self.consts)
        def f(k):
            def read(u):
                m = self.meta[u.name]; return [P.aread(e.st0, e.st0.arrays[o], k if m.mode == "item" else 0) for o in m.cells]
            return self.F(v, c, self.inputs(read), key)
        return f
    def post(self, e):
        if self.isleaf(): return self.leafpost(e)
        return [("%s %s of each point from its own inputs" % (v.name, c), ("arr", Ptr(o, 0), L1(), lambda k: and_(cmp("<=", 0, k), cmp("<", k, self.d)), self.recval(e, v, c)))
                for v in self.views() if v.out for c, o in zip(v.comps, self.meta[v.name].cells)]
    def arrays(self, ex):
        if self.isleaf(): return {}
        return {o: [(L1(), "F", self.recval(self.e, v, c))] for v in self.views() if v.out for c, o in zip(v.comps, self.meta[v.name].cells)}
    # ---- use
    def decode(self, ex, st, p, a):
        if isinstance(a, Ref): a = ex.load(st, ("cell", a.cell, a.path))
        if not isinstance(a, dict) or not isinstance(a.get("data"), Ptr): raise Unsupported("argument %s of %s is not a view" % (p.name, self.name))
        ptr = a["data"]; m = st.arrays[ptr.obj].extra
        if m is None: raise Unsupported("argument %s of %s: unknown cells" % (p.name, self.name))
        same = lambda x, key, k: x is None or isinstance(x, Ref) and x.cell == key and samev(x.path[-1], k)
        if samezero(ptr.off) and samev(a["ndim"], m.n) and m.mode != "item":
            if m.mode != "data" and not (same(a["dim"], m.dk, 0) and same(a["stride"], m.sk, 0)): raise Unsupported("dimensions of the view %s" % p.name)
            return m, 0, m.n
        if m.mode != "item": raise Unsupported("element of a single cell %s" % p.name)
        i = divide(ptr.off, m.s)
        if i is None: raise Unsupported("offset %r in the view %s" % (ptr.off, p.name))
        if not samev(a["ndim"], m.n - 1) or not same(a["dim"], m.dk, 1) or not same(a["stride"], m.sk, 1): raise Unsupported("rank and dimensions of the item of %s do not match its data" % p.name)
        ex.oblige(st, "bounds", "item of %s" % m.view.name, and_(cmp("<=", 0, i), cmp("<", i, m.d)))
        return m, i, m.n - 1
    def call(self, ex, st, args):
        dec = {}; n = {}; cur = ex.current; consts = {p.name: a for p, a in zip(self.params, args) if not isinstance(p, View)}
        for p, a in zip(self.params, args):
            if isinstance(p, View):
                dec[p.name] = self.decode(ex, st, p, a); n[p.name] = dec[p.name][2]
                m = dec[p.name][0]
                if m.view.comps != p.comps and len(m.view.comps) != len(p.comps): raise Unsupported("cells of %s" % p.name)
            elif cur is self: self.checkconst(ex, st, p, a)
        if cur is not self: self.outer(ex, st, consts, dec)
        key = self.key(ex, st, consts)
        ex.oblige(st, "pre", "%s: ranks of the arguments" % self.name, self.ranks(n))
        if cur is self: ex.oblige(st, "measure", "the rank decreases in the recursion", and_(cmp("<=", 0, self.measure(n)), cmp("<", self.measure(n), self.measure(self.n))))
        read = lambda v: [P.aread(st, st.arrays[o], dec[v.name][1]) for o in dec[v.name][0].cells]
        ins = self.inputs(read)
        new = st.copy(); new.touched = st.touched; new.touched_arr = st.touched_arr
        for v in self.views():
            if not v.out: continue
            m, i, _ = dec[v.name]
            for c, o in zip(v.comps, m.cells):
                if new.arrays[o].readonly: ex.oblige(st, "frame", "%s writes the read-only %s" % (self.name, o), False)
                new.arrays[o] = new.arrays[o].write(i, self.F(v, c, ins, key)); new.touched_arr.add(o)
        return [(new, None)]
    def checkconst(self, ex, st, p, a):
        b = ex.current.consts.get(p.name)
        if b is None: raise Unsupported("argument %s of %s" % (p.name, self.name))
        same = samev(a, b)
        if not same and (isint(a) or isint(b)): ex.oblige(st, "pre", "%s: %s is handed over" % (self.name, p.name), cmp("==", a, b)); return
        if not same: ex.oblige(st, "pre", "%s: %s is handed over" % (self.name, p.name), False)
        if isinstance(a, Ref):
            k = (a.cell, a.path); old = ex.current.objects.get(k)
            if old is not None and not samev(ex.load(st, ("cell", a.cell, a.path)), old): ex.oblige(st, "pre", "%s: %s is unchanged" % (self.name, p.name), False)
def const(name, f):
    def make(self, ex, st, rec):
        v = f(self, ex, st, rec); self.consts[name] = v; return v
    return Const(name, make)
def xyz(k): return tuple(str(i) for i in range(k))

# ---------------------------------------------------------------- times
class TimeWalk(Walker):
    fn = None; main = "in"
    params = (View("in"), View("out", out=True))
    def delegate(self, e): return [(self.fn, [self.cell(e, "in")], None, "out")]

import k_time
class ToYearW(TimeWalk):
    """decimal year of each of the times"""
    name = "_mjd2k_to_year"; fn = "mjd2k_to_decimal_year"
class ToFractW(TimeWalk):
    """year fraction of each of the times"""
    name = "_mjd2k_to_year_fract"; fn = "mjd2k_to_year_fraction"
class FromYearW(TimeWalk):
    """time of each of the decimal years"""
    name = "_year_to_mjd2k"; fn = "decimal_year_to_mjd2k"
    params = (View("in", nan=True), View("out", out=True, nan=True))
ToYearW(); ToFractW(); FromYearW()

# ---------------------------------------------------------------- coordinates
import k_geo as G_
class Convert(Walker):
    """every point is converted by the given function"""
    name = "_convert"; main = "in"
    params = (View("in", 1, xyz(3)), View("out", 1, xyz(3), out=True), const("fconv", lambda s, ex, st, rec: Fun("(conversion)") if rec else Fun(s.case[1])))
    def leafcases(self): return sorted({f for r in G_.CONV for f in r})
    def leafpre(self, e):
        c = REG[self.case[1]]; return c.pre(Env(x0=self.cell(e, "in", 0), y0=self.cell(e, "in", 1), z0=self.cell(e, "in", 2)))
    def leafpost(self, e):
        v = REG[self.case[1]].fn(*[self.cell(e, "in", k) for k in range(3)])
        return [("coordinate %d" % k, ("cell", self.outp("out", k), v[k])) for k in range(3)]
Convert()

class Rot(Walker):
    main = "i"
    def leafpost(self, e):
        v = self.value(*[[self.cell(e, x.name, k) for k in range(len(x.comps))] for x in self.views() if not x.out])
        return [("component %d" % k, ("cell", self.outp("o", k), v[k])) for k in range(3)]
    def ranks(self, n):      # a scalar angle, or one per vector
        lead = n["i"] - 1
        return and_(cmp("<=", 0, lead), cmp("==", n["o"], n["i"]), *[or_(cmp("==", n[v.name], 0), cmp("==", n[v.name], lead)) for v in self.views() if v.bcast])
D2R = G_.DEG
class SphToCart(Rot):
    """the components of a vector along north, east and up at the given point in the Cartesian frame"""
    name = "_vrot_sph2cart"
    params = (View("i", 1, xyz(3)), View("lat", bcast=True), View("lon", bcast=True), View("o", 1, xyz(3), out=True))
    def value(self, v, lat, lon):
        a, b = D2R() * lat[0], D2R() * lon[0]; sa, ca, sb, cb = app("SIN", a), app("COS", a), app("SIN", b), app("COS", b)
        n, e, u = v                 # north = (-sin a cos b, -sin a sin b, cos a), east = (-sin b, cos b, 0), up = (cos a cos b, cos a sin b, sin a)
        return [u * ca * cb - n * sa * cb - e * sb, u * ca * sb - n * sa * sb + e * cb, u * sa + n * ca]
class CartToSph(Rot):
    """the projections of a vector to north, east and up"""
    name = "_vrot_cart2sph"
    params = SphToCart.params
    def value(self, v, lat, lon):
        a, b = D2R() * lat[0], D2R() * lon[0]; sa, ca, sb, cb = app("SIN", a), app("COS", a), app("SIN", b), app("COS", b)
        x, y, z = v
        return [z * ca - x * sa * cb - y * sa * sb, y * cb - x * sb, x * ca * cb + y * ca * sb + z * sa]
class SphToGeod(Rot):
    """rotation around the east axis by the difference of the latitudes"""
    name = "_vrot_sph2geod"
    params = (View("i", 1, xyz(3)), View("dlat", bcast=True), View("o", 1, xyz(3), out=True))
    def value(self, v, dlat):
        a = D2R() * dlat[0]; s, c = app("SIN", a), app("COS", a); n, e, u = v
        return [n * c - u * s, e, u * c + n * s]
SphToCart(); CartToSph(); SphToGeod()

# ---------------------------------------------------------------- series and sums of the functions with explicit series
import k_bisect as B_, k_series as S_, k_legendre as L_, k_sheval as V_
def degree(): return const("degree", lambda s, ex, st, rec: ivar("degree"))
def number(name): return const(name, lambda s, ex, st, rec: rvar(name))
def flag(name):
    def f(s, ex, st, rec):
        v = ivar(name)
        if not rec: st.assume(cmp("!=" if s.case[1] else "==", v, 0))
        return v
    return const(name, f)
def table(name, size): return const(name, lambda s, ex, st, rec: arr(st, name, size(ivar("degree")), True))
def tri(w, st): return [TRI(ivar("degree") + 1)]
def lin(w, st): return [ivar("degree") + 1]
def lin2(w, st): return [ivar("degree") + 1, 2]
def least(name, f, *more):
    """an input which may be longer than needed"""
    def g(w, st):
        k = ivar("length of " + name); st.assume(and_(cmp(">=", k, f(ivar("degree"))), cmp("<=", k, Walker.MAXEXT))); return [k] + list(more)
    return g
def ntri(d): return TRI(d + 1)
def nlin(d): return d + 1

class BisectWalk(Walker):
    main = "x"
    def nodes(self, ex, st, rec):
        n = ivar("number of nodes"); p = B_.sorted_array(st, "v", n); k = ("nodes",)
        st.cells[("dims", "v")] = [n]; st.cells[("strides", "v")] = [8]
        st.cells[k] = struct(p, 1, Ref(("dims", "v"), (0,)), Ref(("strides", "v"), (0,))); st.names[k] = "nodes"
        r = Ref(k); self.objects[(r.cell, r.path)] = st.cells[k]; self.n_ = n; self.v_ = p
        return r
    params = (View("x", byref=True, nan=True), View("idx", out=True, byref=True, kind="int"), Const("nodes", None))
    def __init__(self):
        self.params = self.params[:2] + (const("nodes", lambda s, ex, st, rec: s.nodes(ex, st, rec)),); Walker.__init__(self)
    def delegate(self, e): return [(self.name[1:], [self.cell(e, "x"), self.v_, self.n_], None, "idx")]
class BisectLeftW(BisectWalk):
    """intervals of each of the values"""
    name = "_bisect_left"
class BisectRightW(BisectWalk):
    name = "_bisect_right"
BisectLeftW(); BisectRightW()

class LonCosSin(Walker):
    """the series of each of the longitudes"""
    name = "_loncossin"; main = "lon"
    params = (View("lon", byref=True), View("cs", 2, out=True, byref=True, leaf=lin2), degree(), flag("fast_alg"))
    def leafcases(self): return [0, 1]
    def delegate(self, e): return [("fs_cos_sin" if self.case[1] else "fs_cos_sin_ref", [self.meta["cs"].p, e.degree, D2R() * self.cell(e, "lon")], None, None)]
    def trigbase(self, e): return [D2R() * self.cell(e, "lon")] if self.isleaf() else []
class RelRadPow(Walker):
    """the series of each of the radii"""
    name = "_relradpow"; main = "rad"
    params = (View("rad", byref=True), View("rrp", 1, out=True, byref=True, leaf=lin), degree(), flag("is_internal"), number("reference_radius"))
    def leafcases(self): return [0, 1]
    def leafpre(self, e): return [("reference radius", cmp(">", e.reference_radius, 0))] + Walker.leafpre(self, e)
    def delegate(self, e): return [("shc_relradpow_internal" if self.case[1] else "shc_relradpow_external", [self.meta["rrp"].p, e.degree, self.cell(e, "rad") / e.reference_radius], None, None)]
class LegendreW(Walker):
    """the functions and derivatives of each of the latitudes"""
    name = "_legendre"; main = "lat"
    params = (View("lat", byref=True), View("p", 1, out=True, byref=True, leaf=tri), View("dp", 1, out=True, byref=True, leaf=tri), degree(), table("psqrt", lambda d: 2 * d + 2), table("prsqrt", lambda d: 2 * d + 2))
    def delegate(self, e): return [("shc_legendre", [self.meta["p"].p, self.meta["dp"].p, e.degree, D2R() * self.cell(e, "lat"), e.psqrt, e.prsqrt], None, None)]
class SpharPot(Walker):
    """the sum of each of the points from its own series, coefficients and radius (arguments of lower rank are shared)"""
    name = "_spharpot"; main = "pot"
    params = (View("pot", out=True, byref=True), View("rad", byref=True, bcast=True), View("coef", 2, byref=True, bcast=True, leaf=least("coef", ntri, 2)), View("lp", 1, byref=True, bcast=True, leaf=least("lp", ntri)),
              View("rrp", 1, byref=True, bcast=True, leaf=least("rrp", nlin)), View("lcs", 2, byref=True, bcast=True, leaf=least("lcs", nlin, 2)), degree())
    def p(self, k): return self.meta[k].p
    def delegate(self, e): return [("shc_eval_v", [self.p("pot"), e.degree, self.cell(e, "rad")] + [self.p(k) for k in ("coef", "lcs", "lp", "rrp")], None, None)]
class SpharGrd(SpharPot):
    name = "_sphargrd"; main = "grd"
    params = (View("grd", 1, xyz(3), out=True, byref=True, leaf="cvec"), View("lat", byref=True, bcast=True), View("coef", 2, byref=True, bcast=True, leaf=least("coef", ntri, 2)), View("lp", 1, byref=True, bcast=True, leaf=least("lp", ntri)),
              View("ldp", 1, byref=True, bcast=True, leaf=least("ldp", ntri)), View("rrp", 1, byref=True, bcast=True, leaf=least("rrp", nlin)), View("lcs", 2, byref=True, bcast=True, leaf=least("lcs", nlin, 2)), degree(), flag("is_internal"))
    def leafcases(self): return [0, 1]
    def delegate(self, e): return [("shc_eval_dv", [Ptr("grd", k) for k in range(3)] + [e.degree, D2R() * self.cell(e, "lat")] + [self.p(k) for k in ("coef", "lcs", "lp", "ldp", "rrp")] + [e.is_internal], None, None)]
LonCosSin(); RelRadPow(); LegendreW(); SpharPot(); SpharGrd()

# ---------------------------------------------------------------- interpolation of time series
ORDER = {"interp0_eval": 1, "interp1_eval": 2}
def basis_key(ex, st, b, fn):
    """the values of an interpolation are determined by the evaluation function, the segment and the weights"""
    out = [real(b["i"])]
    for k in range(ORDER[fn]):
        w = b["b"][k]
        if nanof(w) is not False: ex.oblige(st, "nan", "weights are not NaN", not_(nanof(w)))
        out.append(valof(w))
    return ":" + fn, out
class InterpEval(Walker):
    """every element is interpolated from its own row of node values"""
    name = "_interp_eval"; main = "c"
    params = (View("c", out=True, byref=True), View("c0", 1, byref=True, leaf=lambda w, st: [ivar("number of nodes")]), Const("basis", None), Const("fn", None))
    def __init__(self):
        self.params = self.params[:2] + (const("basis", lambda s, ex, st, rec: s.basis(ex, st)), const("fn", lambda s, ex, st, rec: Fun(s.fn()))); Walker.__init__(self)
    def fn(self): return self.case[1] if self.isleaf() else "interp1_eval" if self.case[0] == "item" else None
    def leafcases(self): return sorted(ORDER)
    def basis(self, ex, st):
        n = ivar("number of nodes"); i = ivar("i"); o = ORDER[self.fn()]
        st.assume(and_(cmp(">=", i, 0), cmp("<=", i + o, n), cmp("<=", n, B_.NMAX)))
        k = ("basis",); st.cells[k] = {"i0": ivar("i0"), "i": i, "order": o, "b": [rvar("b%d" % j) for j in range(o)] + [UNDEF] * (6 - o)}; st.names[k] = "basis"
        r = Ref(k); self.objects[(r.cell, r.path)] = st.cells[k]
        return r
    def load(self, ex, st, r): return ex.load(st, ("cell", r.cell, r.path))
    def key(self, ex, st, args): return basis_key(ex, st, self.load(ex, st, args["basis"]), args["fn"].name)
    def outer(self, ex, st, args, dec):
        b = self.load(ex, st, args["basis"]); fn = args["fn"].name
        if fn not in ORDER: raise Unsupported("evaluation function %s" % fn)
        ex.oblige(st, "pre", "%s: number of weights" % self.name, cmp("==", b["order"], ORDER[fn]))
        ex.oblige(st, "pre", "%s: segment inside of the nodes" % self.name, and_(cmp(">=", b["i"], 0), cmp("<=", b["i"] + ORDER[fn], dec["c0"][0].nodes)))
    def delegate(self, e): return [(self.case[1], [e.basis, self.meta["c0"].p], None, "c")]
class Fill(Walker):
    """every element is set to the value"""
    name = "_fill_value"; main = "arrd"
    params = (View("arrd", out=True, byref=True, nan=True), const("value", lambda s, ex, st, rec: D(z3.Bool("value.nan"), rvar("value"))))
    @staticmethod
    def token(v): return app("FILLED.nan") if nanof(v) is True else app("FILLED", valof(v)) if nanof(v) is False else rite(nanof(v), app("FILLED.nan"), app("FILLED", valof(v)))
    def F(self, v, c, ins, key): return key[1][0]
    def key(self, ex, st, args): return "", [self.token(args["value"])]
    def leafpost(self, e): return [("value", ("cell", self.outp("arrd", 0), e.value))]
class Interp(Walker):
    """the series of each time: the basis of the time inside of the range of the nodes (or extrapolated), NaN outside"""
    name = "_interp"; main = "t"
    params = (View("t", byref=True, nan=True), View("c", rank=ivar("rank of c"), out=True, byref=True, leaf="opaque"), Const("t0", None), Const("c0", None), Const("basisfn", None), Const("fn", None), Const("extrapolate", None))
    KINDS = {0: ("get_interp0_basis", "interp0_eval"), 1: ("get_interp1_basis", "interp1_eval"), 2: ("get_interp1d1_basis", "interp1_eval")}
    def __init__(self):
        kind = lambda s, rec: 1 if rec else s.case[1][0]
        self.params = self.params[:2] + (const("t0", lambda s, ex, st, rec: s.nodes(ex, st, rec)), const("c0", lambda s, ex, st, rec: s.values(ex, st, rec)), const("basisfn", lambda s, ex, st, rec: Fun(s.KINDS[kind(s, rec)][0])),
                      const("fn", lambda s, ex, st, rec: Fun(s.KINDS[kind(s, rec)][1])), const("extrapolate", lambda s, ex, st, rec: s.flag(st, rec))); Walker.__init__(self)
    def leafcases(self): return [(k, x) for k in self.KINDS for x in (0, 1)]
    def flag(self, st, rec):
        v = ivar("extrapolate")
        if not rec: st.assume(cmp("!=" if self.case[1][1] else "==", v, 0))
        return v
    def nodes(self, ex, st, rec):
        n = ivar("number of nodes"); p = B_.sorted_array(st, "t0", n, True); k = ("t0",); self.n_ = n; self.p_ = p
        st.assume(and_(cmp(">=", n, 2), cmp("<=", n, B_.NMAX)) if rec or self.case[1][0] else and_(cmp(">=", n, 1), cmp("<=", n, B_.NMAX)))
        st.cells[("dims", "t0")] = [n]; st.cells[("strides", "t0")] = [8]
        st.cells[k] = struct(p, 1, Ref(("dims", "t0"), (0,)), Ref(("strides", "t0"), (0,))); st.names[k] = "t0"
        r = Ref(k); self.objects[(r.cell, r.path)] = st.cells[k]; return r
    def values(self, ex, st, rec):
        R = ivar("rank of c"); st.assume(and_(cmp(">=", R, 0), cmp("<=", R, 64)))
        v = View("c0", rank=R + 1, byref=True); s = self.opaque(st, v, "whole", R + 1); self.meta["c0"].nodes = ivar("number of nodes")
        r = self.ref(st, v, s); self.objects[(r.cell, r.path)] = st.cells[r.cell]; return r
    def leafpre(self, e):
        x = self.cell(e, "t"); out = [("time is not NaN (extrapolation)", not_(nanof(x)))] if self.case[1][1] else []
        return out
    def leafpost(self, e):
        bf, fn = self.KINDS[self.case[1][0]]; c = REG[bf]; x = self.cell(e, "t"); n = self.n_
        at = lambda i: P.aread(e.st0, e.st0.arrays["t0"], i)
        e2 = c.env([x, self.p_, n]); e2.st = e2.st0 = e.st0; e2.ex = e.ex
        b = c.result(e.ex, e2)
        val = app("_interp_eval:%s.c.v" % fn, *([real(b["i"])] + [valof(w) for w in b["b"][:ORDER[fn]]] + [P.aread(e.st0, e.st0.arrays["c0.v"], 0)]))
        if self.case[1][1]: return [("interpolated", ("cell", Ptr("c.v", 0), val))]
        inside = and_(not_(nanof(x)), cmp("<=", at(0), valof(x)), *([] if self.case[1][0] == 0 else [cmp("<=", valof(x), at(n - 1))]))
        return [("interpolated inside of the nodes, NaN outside", ("cell", Ptr("c.v", 0), rite(inside, val, app("FILLED.nan"))))]
InterpEval(); Fill(); Interp()

# ---------------------------------------------------------------- batches of points
import k_model as M_
def model(self, ex, st, rec):
    k = ("model",); st.cells[k] = M_.valid(); st.names[k] = "model"; r = Ref(k); self.objects[(r.cell, r.path)] = st.cells[k]
    st.assume(and_(cmp(">=", ivar("degree"), 0), cmp("<=", ivar("degree"), M_.DEGMAX)))
    return r
def domains(*cells):
    """all the points of the cells belong to the domain of the model"""
    return z3.Function("DOMAINS", *([z3.RealSort()] * len(cells) + [z3.BoolSort()]))(*[zr(c) for c in cells])
class ShevalPot(Walker):
    """the model at each of the points, from its own coordinates and coefficients"""
    name = "_sheval_pot"; main = "pot"
    POTV, GRDV = View("pot", out=True), View("grd", 1, xyz(3), out=True, leaf="cvec")
    IN = (View("x", 1, xyz(3), bcast=True, leaf="cvec"), View("coef", 2, bcast=True, leaf=least("coef", ntri, 2)), const("model", model))
    params = (POTV,) + IN
    def leafcases(self): return ["array", "data"]          # coefficients: array of pairs, or the address of its first element
    def ranks(self, n):
        m = self.view(self.main); lead = n[self.main] - m.rank
        c = and_(cmp("<=", 2, n["coef"]), cmp("<=", n["coef"], lead + 2))
        return and_(cmp("<=", 0, lead), or_(cmp("==", n["coef"], 0), c), cmp("<=", 1, n["x"]), cmp("<=", n["x"], lead + 1), *[cmp("==", n[v.name], lead + v.rank) for v in self.views() if v.out])
    def leafview(self, ex, st, v):
        s = Walker.leafview(self, ex, st, v)
        return struct(s["data"], 0, NULL, NULL) if v.name == "coef" and self.case[1] == "data" else s
    def outer(self, ex, st, args, dec):
        r = args["model"]
        if not isinstance(r, Ref) or ex.load(st, ("cell", r.cell, r.path)) != M_.VALID: raise Unsupported("unknown model")
        m = dec["coef"][0]; d = ivar("degree")
        ex.oblige(st, "pre", "%s: coefficients" % self.name, and_(cmp(">=", m.size, 2 * TRI(d + 1))))
        ex.oblige(st, "pre", "%s: domain of the model" % self.name, domains(*[P.aread(st, st.arrays[o], 0) for o in dec["x"][0].cells]))
    def leafpre(self, e): return [("domain of the model", M_.domain(*[self.cell(e, "x", k) for k in range(3)]))]
    def leafpost(self, e):
        x = [self.cell(e, "x", k) for k in range(3)]; c = self.meta["coef"].p
        names = {"pot": ("fpot",), "grd": ("fx", "fy", "fz")}
        return [(f, ("cell", Ptr(v.name, k), M_.field(e.st0, f, x, c))) for v in self.views() if v.out for k, f in enumerate(names[v.name])]
class ShevalGrd(ShevalPot):
    name = "_sheval_grd"; main = "grd"
    params = (ShevalPot.GRDV,) + ShevalPot.IN
class ShevalPotGrd(ShevalPot):
    name = "_sheval_pot_and_grd"
    params = (ShevalPot.POTV, ShevalPot.GRDV) + ShevalPot.IN
ShevalPot(); ShevalGrd(); ShevalPotGrd()

# ---------------------------------------------------------------- batches of times and points
import k_temp as T_
class ShevalTempPot(Walker):
    """at each of the times: the points of the time with the coefficients of the time, whatever has been evaluated before"""
    name = "_shevaltemp_pot"; main = "t"; inner = "_sheval_pot"
    POTV = View("pot", out=True, leaf="opaque", leafrank=True); GRDV = View("grd", 1, xyz(3), out=True, leaf="opaque", leafrank=True)
    IN = (View("t"), View("x", 1, xyz(3), bcast=True, leaf="opaque", leafrank=True), const("model", lambda s, ex, st, rec: s.modelts(ex, st, rec)))
    params = (POTV,) + IN
    def leafcases(self): return ["cache of the time", "cache of another time", "empty cache"]
    def ranks(self, n):
        n0 = n[self.params[0].name] - self.params[0].rank
        return and_(cmp("<=", 0, n["t"]), cmp("<=", 1, n["x"]), or_(and_(cmp("==", n0, n["t"]), cmp("<=", n["x"] - 1, n["t"])), and_(cmp("==", n0, n["x"] - 1), cmp("<=", n["t"], n0))),
                    *[cmp("==", n[v.name], n0 + v.rank) for v in self.views() if v.out])
    def leafview(self, ex, st, v):
        s = Walker.leafview(self, ex, st, v)
        if v.leafrank: self.leafn[v.name] = s["ndim"]
        return s
    def buildleaf(self, ex, st):
        self.leafn = {"t": 0}; out = Walker.buildleaf(self, ex, st); st.assume(self.ranks(self.leafn)); m = st.cells[("model",)]
        t = P.aread(st, st.arrays["t"], 0)
        if self.case[1] == "cache of the time": m["time_last"] = t; st.arrays["coefs.v"] = st.arrays["coefs.v"].write(0, T_.content(t))
        if self.case[1] == "cache of another time": st.assume(cmp("!=", m["time_last"], t))
        return out
    def modelts(self, ex, st, rec):
        k = ("model",); st.names[k] = "model"; r = Ref(k)
        if rec: st.cells[k] = {"#modelts": 1}; self.objects[(k, ())] = st.cells[k]; return r
        arr(st, "coefs.v", 1); st.arrays["coefs"] = Arr(fresh_name("coefs"), 0, 8, "view", True, label="coefs")
        st.arrays["coefs"].extra = Env(view=View("coefs"), cells=["coefs.v"], s=None, d=None, n=0, mode="data", size=2 * TRI(ivar("degree") + 1))
        last = D(z3.BoolVal(True), rvar("time_last")) if self.case[1] == "empty cache" else rvar("time_last")
        if self.case[1] == "cache of another time": st.arrays["coefs.v"] = st.arrays["coefs.v"].write(0, T_.content(last))
        st.cells[k] = {"sh_model": M_.valid(), "coef": Ptr("coefs", 0), "coefsets": UNDEF, "ncoefset": UNDEF, "time_last": last}
        return r
    def leafpre(self, e): return [("domain of the model", domains(*[P.aread(e.st0, e.st0.arrays[o], 0) for o in self.meta["x"].cells]))]
    def mods(self, e): return Walker.mods(self, e) + ([Ref(("model",)), Ptr("coefs.v", 0)] if self.isleaf() else [])
    def leafpost(self, e):
        t = self.cell(e, "t"); m = e.st.cells[("model",)]; m0 = e.st0.cells[("model",)]
        ins = [P.aread(e.st0, e.st0.arrays[o], 0) for o in self.meta["x"].cells] + [T_.content(t)]
        c = REG[self.inner]
        out = [("%s %s: coefficients of the time" % (v.name, k), ("cell", Ptr(o, 0), c.F(v, k, ins, ("", [])))) for v in self.views() if v.out for k, o in zip(v.comps, self.meta[v.name].cells)]
        return out + [("time of the cache", ("cellval", m["time_last"], t)), ("contents of the cache", ("cell", Ptr("coefs.v", 0), T_.content(t)))] + [("%s is unchanged" % k, ("prop", samev(m[k], m0[k]) or m[k] is m0[k])) for k in m0 if k != "time_last"]
class ShevalTempGrd(ShevalTempPot):
    name = "_shevaltemp_grd"; inner = "_sheval_grd"
    params = (ShevalTempPot.GRDV,) + ShevalTempPot.IN
class ShevalTempPotGrd(ShevalTempPot):
    name = "_shevaltemp_pot_and_grd"; inner = "_sheval_pot_and_grd"
    params = (ShevalTempPot.POTV, ShevalTempPot.GRDV) + ShevalTempPot.IN
ShevalTempPot(); ShevalTempGrd(); ShevalTempPotGrd()
