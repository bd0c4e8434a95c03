"""Contracts: evaluation of a model at one point (C06, C07).

The structure MODEL caches the series of the last point. Invariant: unless clat_last is NaN, lp and ldp hold the Legendre
functions and derivatives at clat_last, and the same for the longitudes (lcs) and radii (rrp); psqrt and prsqrt hold the tables
of roots. _model_eval re-establishes the invariant for its own point and its result is that of the sums over the series of its
own point: it does not depend on the state of the cache."""
import itertools
from contract import *
from specs import *
import specs
from prover import L1, LPair, LTri
from cexec import UNDEF
from k_series import arr, DEGMAX
import k_geo as G_, k_legendre as L_, k_sheval as V_

GEOD, SPH, CART = 0, 1, 2
POT, GRD = 1, 2
RADIUS = 6371.2
SCALES = ("scale_potential", "scale_gradient0", "scale_gradient1", "scale_gradient2")
def vals(name, *a):
    """values of a function of doubles by its contract"""
    c = REG[name]; e = c.env([None if k in c.outs else v for k, v in zip(c.params, (None,) * len(c.outs) + a)]); return c.values(e)
def spherical(cin, x, y, z):
    """geocentric latitude and longitude in radians, radius"""
    if cin == GEOD: v = vals("geodetic2geocentric_sph", x, y, z, G_.A_(), G_.E2_())
    elif cin == SPH: return G_.DEG() * x, G_.DEG() * y, z
    else: v = vals("cart2sph", x, y, z)
    return v["th"], v["ph"], v["r"]
def frame(cin, cout, x, y, z):
    """rotation from the local spherical frame (north, east, up) to the output frame"""
    lat, lon, r = spherical(cin, x, y, z)
    if cout == SPH: return lambda n, e, u: (n, e, u)
    if cout == CART:
        a, b, c, d = app("SIN", lat), app("COS", lat), app("SIN", lon), app("COS", lon)
        return lambda n, e, u: (u * b * d - n * a * d - e * c, u * b * c - n * a * c + e * d, u * a + n * b)
    glat = x if cin == GEOD else vals("geocentric_sph2geodetic", r, lat, lon, G_.A_(), G_.E2_())["lat"]
    t = lat - G_.DEG() * glat; a, b = app("SIN", t), app("COS", t)
    return lambda n, e, u: (u * a + n * b, e, u * b - n * a)

VALID = {"#model": 1}
def valid():
    """an initialised structure for the callers of _model_eval, which never look inside: the cache is its hidden state"""
    return dict(VALID)
def domain(x, y, z): return z3.Function("DOMAIN", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())(zr(x), zr(y), zr(z))
def field(st, k, x, coeff):
    """value of the model (k: fpot, fx, fy, fz) at the point x: by the postcondition of _model_eval a function of the point, the parameters of the model and the contents of the array of coefficients"""
    a = st.arrays[coeff.obj]
    if a.writes: raise Unsupported("partially written coefficients")
    return app("FIELD.%s[%s%+r]" % (k, a.base, coeff.off), *x)

class ModelEval(Contract):
    name = "_model_eval"; ntrace = 0; cellouts = True
    NAMES = ("fpot", "fx", "fy", "fz", "x", "y", "z", "coeff", "model", "mode")
    def cases(self): return [c for c in itertools.product((GEOD, SPH, CART), (GEOD, SPH, CART), (POT, GRD, POT | GRD), (0, 1), (0, 1), (0, 1), (0, 1))]
    def casecond(self, e, case): return True
    def build(self, ex, st):
        cin, cout, mode, internal, *hits = self.case
        d = ivar("degree"); n = TRI(d + 1); st.assume(and_(cmp(">=", d, 0), cmp("<=", d, DEGMAX)))
        ii = ivar("is_internal"); st.assume(cmp("!=" if internal else "==", ii, 0))
        x = [rvar(k) for k in "xyz"]
        lat, lon, r = spherical(cin, *x)
        m = {"is_internal": ii, "degree": d, "nterm": n, "coord_in": cin, "coord_out": cout, "elps_a": G_.A_(), "elps_eps2": G_.E2_(), "crad_ref": G_.const(RADIUS),
             "lp": arr(st, "lp", n), "ldp": arr(st, "ldp", n), "lcs": arr(st, "lcs", 2 * d + 2), "rrp": arr(st, "rrp", d + 1), "psqrt": arr(st, "psqrt", 2 * d + 2, True), "prsqrt": arr(st, "prsqrt", 2 * d + 2, True)}
        for k in SCALES: m[k] = rvar(k)
        for k, v, hit in zip(("clat_last", "clon_last", "crad_last"), (lat, lon, r), hits):
            if hit: m[k] = v                                     # the cache holds the series of this point
            else:                                                # or anything
                b = z3.Bool(k + ".nan"); m[k] = D(b, rvar(k)); st.assume(or_(b, cmp("!=", rvar(k), v)))
        st.cells[("model",)] = m; st.names[("model",)] = "model"; self.m = m
        outs = []
        for k in self.NAMES[:4]:
            if mode & (POT if k == "fpot" else GRD): st.cells[("out", k)] = UNDEF; outs.append(Ref(("out", k)))
            else: outs.append(NULL)
        return outs + x + [arr(st, "coeff", 2 * n, True), Ref(("model",)), mode]
    def env(self, a): return Env(**dict(zip(self.NAMES, a)))
    def call(self, ex, st, args):
        e = self.env(args); x = [e.x, e.y, e.z]; d = ivar("degree")
        if not isinstance(e.model, Ref) or st.cells.get(e.model.cell) != VALID: raise Unsupported("unknown model")
        if isinstance(e.mode, IP) or e.mode not in (1, 2, 3): raise Unsupported("mode of the evaluation")
        ex.oblige(st, "nan", "coordinates are not NaN", and_(*[not_(nanof(v)) for v in x]))
        x = [valof(v) for v in x]
        ex.oblige(st, "pre", "_model_eval: domain of the model", domain(*x))
        ex.oblige(st, "pre", "_model_eval: coefficients", and_(cmp(">=", e.coeff.off, 0), cmp(">=", st.arrays[e.coeff.obj].size, e.coeff.off + 2 * TRI(d + 1))))
        new = st.copy(); new.touched = st.touched; new.touched_arr = st.touched_arr
        for k in self.NAMES[:4]:
            if not e.mode & (POT if k == "fpot" else GRD): continue
            out = getattr(e, k); val = field(st, k, x, e.coeff)
            if isinstance(out, Ref): ex.store(new, ("cell", out.cell, out.path), val)
            elif isinstance(out, Ptr):
                a = new.arrays[out.obj]; at = ex.place(a, out.off); ex.bounds(st, out.obj, a, at, "write (%s)" % self.name)
                if a.readonly: ex.oblige(st, "frame", "%s writes the read-only %s" % (self.name, a.label), False)
                new.arrays[out.obj] = a.write(at, val); new.touched_arr.add(out.obj)
            else: ex.oblige(st, "null", "_model_eval: output %s" % k, False)
        return [(new, None)]
    def series(self, e):
        """contents of the arrays: the series of the point"""
        m = self.m; d = m["degree"]; lat, lon, r = spherical(self.case[0], e.x, e.y, e.z); rel = r / m["crad_ref"]
        s = app("SIN", lat); c = app("SQRT", (real(1) - s) * (real(1) + s)); low = lambda i, *j: cmp("<=", i, d)
        R = (lambda k: PW(real(1) / rel, k + 2)) if self.case[3] else (lambda k: PW(rel, k) / rel)
        specs.LEG.update(S="m", lemma=False)
        return {"lat": [("Legendre functions", m["lp"], LTri(), low, leg(s, c)), ("Legendre derivatives", m["ldp"], LTri(), low, dleg(s, c))],
                "lon": [("cosines", m["lcs"], LPair(0), low, lambda k: CM(lon, k)), ("sines", m["lcs"], LPair(1), low, lambda k: SM(lon, k))],
                "rad": [("radial functions", m["rrp"], L1(), low, R)]}
    def trigbase(self, e): return [spherical(self.case[0], e.x, e.y, e.z)[1]]
    def pre(self, e):
        m = self.m; cin, cout = self.case[:2]; lat, lon, r = spherical(cin, e.x, e.y, e.z)
        out = [("radius above %d km" % G_.MINR, cmp(">=", r, G_.MINR))]
        if cin == CART: out += REG["cart2sph"].pre(Env(x=e.x, y=e.y, z=e.z))
        if cin != GEOD and cout == GEOD: out += REG["geocentric_sph2geodetic"].pre(Env(r=r, th=lat, ph=lon, a=m["elps_a"], e2=m["elps_eps2"]))
        out += L_.sqrt_tables(Env(psqrt=m["psqrt"], prsqrt=m["prsqrt"], degree=m["degree"]))
        s = self.series(e)
        for k, hit in zip(("lat", "lon", "rad"), self.case[4:]):
            if hit: out += [("cache: " + l, ArrClaim(p.obj, p.off, lay, reg, val)) for l, p, lay, reg, val in s[k]]
        return out
    def mods(self, e): return [getattr(e, k) for k in self.NAMES[:4] if getattr(e, k) is not NULL] + [self.m[k] for k in ("lp", "ldp", "lcs", "rrp")] + [Ref(("model",))]
    def post(self, e):
        m = e.st.cells[("model",)]; cin, cout, mode, internal = self.case[:4]
        lat, lon, r = spherical(cin, e.x, e.y, e.z)
        out = []
        for k, v in self.m.items():
            if not k.endswith("_last"): out.append(("%s is unchanged" % k, ("prop", samev(m[k], v))))
        out += [("cache of the latitude", ("cellval", m["clat_last"], lat)), ("cache of the longitude", ("cellval", m["clon_last"], lon)), ("cache of the radius", ("cellval", m["crad_last"], r))]
        out += [("cache: " + l, ("arr", p, lay, reg, val)) for k in ("lat", "lon", "rad") for l, p, lay, reg, val in self.series(e)[k]]
        c = REG["shc_eval_v_dv"]; e2 = c.env([None] * 4 + [m["degree"], lat, r, e.coeff, m["lcs"], m["lp"], m["ldp"], m["rrp"], m["is_internal"]]); e2.st = e.st; e2.ex = e.ex
        v = c.values(e2)                         # the sums over the series of the point
        if mode & POT: out.append(("potential", ("cell", e.fpot, v["vpot"] * m["scale_potential"])))
        if mode & GRD:
            f = frame(cin, cout, e.x, e.y, e.z)(v["dvel"], v["dvaz"], v["dvrd"])
            out += [("gradient %s" % k, ("cell", getattr(e, k), f[i] * m["scale_gradient%d" % i])) for i, k in enumerate(("fx", "fy", "fz"))]
        return out
from loops import samev

FIELDS = {"is_internal": 0, "degree": 0, "nterm": 0, "coord_in": 0, "coord_out": 0}
FLOATS = ("elps_a", "elps_eps2", "crad_ref", "clat_last", "clon_last", "crad_last") + SCALES
ARRAYS = ("lp", "ldp", "lcs", "rrp", "psqrt", "prsqrt")
def isnull(x): return isinstance(x, cexec.Null)
def released(e):
    """every block allocated on the way is released"""
    out = []
    for o in e.st.ghost.get("heap", []):
        a = e.st.arrays[o]
        if not a.freed: out.append(("no block is left (%s)" % a.label, ("prop", e.st.ghost.get("failed", {}).get(o, False))))
    return out
class ModelReset(Contract):
    """nothing is set"""
    name = "_model_reset"; ntrace = 0; inline = True; path = ()
    def at(self, st):
        m = st.cells[("model",)]
        for p in self.path: m = m[p]
        return m
    ptrs = ARRAYS; ints = tuple(FIELDS); floats = FLOATS
    def build(self, ex, st):
        st.cells[("model",)] = {}; st.names[("model",)] = "model"; return [Ref(("model",))]
    def env(self, a): return Env(model=a[0])
    def mods(self, e): return [Ref(("model",))]
    def post(self, e):
        m = self.at(e.st)
        return [(k, ("prop", isnull(m.get(k)))) for k in self.ptrs] + [(k, ("cellval", m.get(k), 0)) for k in self.ints] + [(k, ("cellval", m.get(k), real(0))) for k in self.floats]
class ModelDestroy(ModelReset):
    """the arrays which were allocated are released, once, and nothing is set"""
    name = "_model_destroy"
    def cases(self): return list(range(len(self.ptrs) + 1))          # number of allocated arrays
    def casecond(self, e, case): return True
    def build(self, ex, st):
        m = {k: 0 for k in self.ints}; m.update({k: rvar(k) for k in self.floats}); st.ghost["heap"] = []
        for i, k in enumerate(self.ptrs):
            m[k] = NULL
            if i < self.case: m[k] = arr(st, k, ivar("size")); st.ghost["heap"] = st.ghost["heap"] + [k]
        st.cells[("model",)] = m; st.names[("model",)] = "model"; return [Ref(("model",))]
    def mods(self, e): return ModelReset.mods(self, e) + [Ptr(k, 0) for k in self.ptrs]
    def post(self, e): return ModelReset.post(self, e) + released(e)
class ModelInit(ModelReset):
    """0: the arrays are allocated, the tables are set, the parameters are stored and the cache is empty; otherwise nothing is set and nothing is left allocated"""
    name = "_model_init"
    def build(self, ex, st):
        d = ivar("degree"); st.assume(and_(cmp(">=", d, 0), cmp("<=", d, DEGMAX)))
        st.cells[("model",)] = {}; st.names[("model",)] = "model"
        return [Ref(("model",)), ivar("is_internal"), d, ivar("coord_in"), ivar("coord_out"), rvar("scale_potential"), arr(st, "scale_gradient", 3, True)]
    def env(self, a): return Env(model=a[0], is_internal=a[1], degree=a[2], coord_in=a[3], coord_out=a[4], sp=a[5], sg=a[6])
    def mods(self, e): return [Ref(("model",))]
    def params(self, e): return {"is_internal": e.is_internal, "degree": e.degree, "nterm": TRI(e.degree + 1), "coord_in": e.coord_in, "coord_out": e.coord_out}
    def sizes(self, e): d = e.degree; n = TRI(d + 1); return {"lp": n, "ldp": n, "lcs": 2 * d + 2, "rrp": d + 1, "psqrt": 2 * d + 2, "prsqrt": 2 * d + 2}
    def post(self, e):
        m = self.at(e.st)
        if isinstance(e.ret, IP): return [("status", ("prop", False))]
        if e.ret != 0: return ModelReset.post(self, e) + released(e)
        sg = lambda k: P.aread(e.st0, e.st0.arrays["scale_gradient"], k)
        out = [(k, ("cellval", m[k], v)) for k, v in self.params(e).items()]
        out += [(k, ("cellval", m[k], v)) for k, v in (("elps_a", G_.A_()), ("elps_eps2", G_.E2_()), ("crad_ref", G_.const(RADIUS)), ("scale_potential", e.sp), ("scale_gradient0", sg(0)), ("scale_gradient1", sg(1)), ("scale_gradient2", sg(2)))]
        out += [("%s is empty" % k, ("prop", nanof(m[k]))) for k in ("clat_last", "clon_last", "crad_last")]
        p = {k: v.ptr if isinstance(v, cexec.MaybeNull) else v for k, v in m.items() if k in self.sizes(e)}
        for k, n in self.sizes(e).items():
            if isinstance(m[k], cexec.MaybeNull): out.append(("%s is allocated" % k, ("prop", not_(m[k].cond))))
            out += [("start of %s" % k, ("prop", cmp("==", p[k].off, 0))), ("size of %s" % k, ("prop", cmp("==", e.st.arrays[p[k].obj].size, n))), ("%s is not released" % k, ("prop", not e.st.arrays[p[k].obj].freed))]
        out.append(("arrays are distinct", ("prop", len({x.obj for x in p.values()}) == len(p))))
        t = Env(psqrt=p["psqrt"], prsqrt=p["prsqrt"], degree=e.degree)
        return out + [(l, ("prop", g)) for l, g in L_.sqrt_tables(t)]
ModelEval(); ModelReset(); ModelDestroy(); ModelInit()
