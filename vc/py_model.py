"""Python functions: evaluation of the models (C16, C18), composed models (C17)."""
from py_pymm import *
from py_dipole import todip, back, same3, points, comps
MODEL = "eoxmagmod.magnetic_model.model"
RT = range(3)
CASES = [(a, b) for a in range(3) for b in range(3)]
def inputs(rt, rc, nan=True):
    """time of the rank rt, locations of the rank rc + 1; the index of the arbitrary element of the result"""
    r = max(rt, rc); big, g = extents(r)
    other = tuple(I(ivar("m%d" % k)) for k in range(min(rt, rc)))
    for n in other: RUN.st.assume(cmp(">=", n.v, 1))
    st, sc = (big, other) if rt >= rc else (other, big)
    if rt == rc: st, sc = big, other
    t = arr("t", st, nan); x = points("x", sc)
    return t, x, big, g, [(a, b) for a, b in zip(big, other)]
def accepted(call, pairs):
    """the call is rejected (ValueError) if and only if the common extents differ"""
    differ = or_(*[cmp("!=", a.v, b.v) for a, b in pairs])
    try: out = call()
    except ValueError:
        check("post", "rejected only if the shapes differ", differ); raise Cut()
    check("post", "accepted only if the shapes agree", not_(differ))
    return out

class Method:
    """an evaluation method: element by element a function of the time, the point and its other arguments"""
    def __init__(self, comp=None): self.comp = comp
    def __call__(self, coefficients, time, location, cin, cout, **options):
        return evaluate(self.comp if self.comp is not None else key(coefficients), coefficients, time, location, cin, cout, options)
def evaluate(k, coefficients, time, location, cin, cout, options):
    time, x = asarray(time), last3(location); cin, cout = ctype(cin), ctype(cout); lead = x.shape[:-1]
    if time.ndim != 0 and (time.ndim != len(lead) or not all(p is q or sameext(p, q) for p, q in zip(time.shape, lead))): unsup("method called with different shapes")
    f, h = x.snap(), time.snap(); r = time.ndim; ex = [key(k), key(coefficients), real(cin), real(cout), okey(options)]
    return A(lambda idx: field("EV", idx[-1], [h(idx[:-1][:r])], comps(f, idx[:-1]), ex), x.shape)
class Coef(Tok): pass
def first_valid(model_attr=None): pass

class EvalInv(Inv):
    """w: the first of the components valid at the time of the arbitrary element (None: no component is)"""
    def __init__(self, arrays): self.names = ("result", "pending") if arrays else ()
    def arrays(self, L, loc, k):
        if not self.names: return {}
        G = RUN.ghost; w = G["w"]; g = RUN.gen[:G["rank"]]
        before = True if w is None else cmp("<=", k, w)
        def res(c):
            if w is None or branch(before): return NANR
            return G["value"](w)[c]
        return {"result": (g, res), "pending": (g, lambda: mkb(before))}
    def facts(self, L, loc, k):
        if self.names: return []
        w = RUN.ghost["w"]; return [("no component before is valid", True if w is None else cmp("<=", k, w))]
    def known(self, L, loc, k):
        w = RUN.ghost["w"]; v = RUN.ghost["valid"](k)
        if w is None: RUN.st.assume(implies(cmp("<", k, L.seq.n), not_(v)))
        elif branch(cmp("<", k, w)): RUN.st.assume(not_(v))
        elif branch(cmp("==", k, w)): RUN.st.assume(cmp("==", k, w))
        if P.infeasible(RUN.st): raise Infeasible()
INV[(MODEL + ".SphericalHarmomicGeomagneticModel.eval", 0)] = EvalInv(False)
INV[(MODEL + ".SphericalHarmomicGeomagneticModel.eval", 1)] = EvalInv(True)
def components(t):
    """a sequence of components of any length; w: the first one valid at the time t"""
    n = ivar("components"); RUN.st.assume(cmp(">=", n, 0)); memo = {}
    def item(k):
        kk = ikey(k)
        if kk not in memo: memo[kk] = ((R(app("START", k)), R(app("END", k))), Method(app("method", real(k))), Coef("coefficients", real(k)))
        return memo[kk]
    valid = lambda k: and_(not_(t.n), cmp("<=", app("START", k), t.v), cmp("<=", t.v, app("END", k)))
    w = None
    if choose():
        w = ivar("first"); RUN.st.assume(and_(cmp("<=", 0, w), cmp("<", w, n))); RUN.st.assume(valid(w))
    G = RUN.ghost; G["w"] = w; G["valid"] = valid; G["item"] = item
    return SymList(n, item)
def opts(given):
    return {"scale": R(rvar("scale")), "max_degree": Tok("max_degree")} if given else {}
def model_eval(res, budget):
    def body(rt, rc, given, cin, cout):
        m = load(MODEL); t, x, shape, g, pairs = inputs(rt, rc)
        mod = object.__new__(m.SphericalHarmomicGeomagneticModel)
        te, p = t.elem(g[:rt]), comps(x.snap(), g[:rc])
        mod._components = components(te)
        o = opts(given); a = (cin, cout) if cin is not None else ()
        ci, co = (cin, cout) if a else (SPH, SPH)
        RUN.ghost["rank"] = len(g)
        RUN.ghost["value"] = lambda w: [field("EV", c, [te], p, [app("method", real(w)), Coef("coefficients", real(w)).v, real(ci), real(co), okey(o)]) for c in range(3)]
        out = accepted(lambda: mod.eval(t, x, *a, **o), pairs)
        w = RUN.ghost["w"]
        want = [NANR] * 3 if w is None else RUN.ghost["value"](w)
        same3("value of the first valid component, NaN if there is none", out, want, g, shape)
    verify(res, "model.SphericalHarmomicGeomagneticModel.eval", [("time of rank %d, locations of rank %d, %s%s" % (a, b, "options" if o else "no options", "" if c is None else ", %d to %d" % (c, d)), (a, b, o, c, d))
           for a, b in CASES for o, c, d in ((0, None, None), (1, 0, 2))], body)

class Series(Tok):
    """coefficients with interpolated sets"""
    def __init__(self, name, conv): Tok.__init__(self, name); self.internal = B(z3.Bool("internal")); self.conv = conv
    @property
    def is_internal(self): return self.internal
    def get_coefficient_sets(self, **o): return [Tok("sets", self.v, okey(o))]
    def __getattr__(self, n):
        if n == "convert_time":
            if self.conv == 2: return ufunc(lambda x: fapp("CONVERT", x))
            if self.conv == 1: return None
        raise AttributeError(n)
    def __call__(self, time, **o):
        t = asarray(time)
        if t.ndim: unsup("coefficients of an array of times")
        e = rv(t.elem(()))
        if e.n is not False and branch(e.n): return Tok("matrix at NaN", self.v, okey(o)), I(iz(z3.Function("DEGN", z3.RealSort(), z3.IntSort())(zr(okey(o)))))
        return Tok("matrix", self.v, e.v, okey(o)), R(app("DEGREE", self.v, e.v, okey(o)))
def methods(res, budget):
    """the evaluation methods"""
    def interp(rt, r, cin, cout, given, conv):
        m = load(MODEL); shape, g = extents(r); t = arr("t", shape[:rt], True); x = points("x", shape); mod = object.__new__(m.SphericalHarmomicGeomagneticModel)
        s = Series("series", conv); o = opts(given)
        out = mod._eval_interpolated(s, t, x, cin, cout, **o)
        te, p = t.elem(g[:rt]), comps(x.snap(), g)
        if conv == 2: te = fapp("CONVERT", te)
        sc = R(rvar("scale")) if given else R(real(1))
        ex = [app("tuple1", Tok("sets", s.v, okey(o)).v), real(cin), real(cout), key(s.internal)]
        same3("minus the scaled gradient of the series at the time", out, [op1("*", field("SHT", "g%d" % c, [te], p, ex), op1("*", -1, sc)) for c in range(3)], g, shape)
    ct = [(a, b) for a in range(3) for b in range(3)]
    verify(res, "model.SphericalHarmomicGeomagneticModel._eval_interpolated", [("rank %d of %d, %d to %d, options %d, conversion %d" % (q, r, a, b, o, c), (q, r, a, b, o, c)) for r in range(3) for q in sorted({0, r}) for a, b in ct for o in (0, 1) for c in (0, 1, 2)], interp)
    def default(rt, r, cin, cout, given):
        m = load(MODEL); shape, g = extents(r); t = arr("t", shape[:rt], False); x = points("x", shape); mod = object.__new__(m.SphericalHarmomicGeomagneticModel)
        s = Series("series", 0); o = opts(given)
        out = mod._eval_default(s, t, x, cin, cout, **o)
        te, p = rv(t.elem(g[:rt])), comps(x.snap(), g)
        sc = R(rvar("scale")) if given else R(real(1))
        ex = [app("tok matrix", s.v, te.v, okey(o)), real(cin), real(cout), key(s.internal), app("DEGREE", s.v, te.v, okey(o))]
        same3("minus the scaled gradient of the coefficients at the time", out, [op1("*", field("SH", "g%d" % c, [], p, ex), op1("*", -1, sc)) for c in range(3)], g, shape)
    verify(res, "model.SphericalHarmomicGeomagneticModel._eval_default", [("rank %d of %d, %d to %d, options %d" % (q, r, a, b, o), (q, r, a, b, o)) for r in range(3) for q in sorted({0, r}) for a, b in ct for o in (0, 1)], default)
def dipole_model(res, budget):
    """the model in the dipole frame: the expansion at the rotated location, rotated back"""
    def body(r, rt, cin, cout, scaled):
        m = load(MODEL); shape, g = extents(r); t = arr("t", shape[:rt], True); x = points("x", shape)
        mod = object.__new__(m.DipoleSphericalHarmomicGeomagneticModel); lat, lon = R(rvar("lat_ngp")), R(rvar("lon_ngp")); mod.north_pole = (lat, lon)
        o = {"max_degree": Tok("max_degree")}
        if scaled: o["scale"] = R(rvar("scale"))
        co = Coef("coefficients")
        out = mod._eval(Method(rvar("method")), co, t, x, cin, cout, **o)
        p = comps(x.snap(), g); q = todip(p, lat, lon, cin); te = t.elem(g[:rt])
        v = [field("EV", c, [te], q, [rvar("method"), co.v, real(SPH), real(SPH), okey({"max_degree": Tok("max_degree")})]) for c in range(3)]
        w = back(v, lat, lon, q, p, cin, cout)
        if scaled: w = [op1("*", k, R(rvar("scale"))) for k in w]
        same3("field of the expansion at the rotated location, in the output frame, scaled once", out, w, g, shape)
    verify(res, "model.DipoleSphericalHarmomicGeomagneticModel._eval", [("rank %d, time of rank %d, %d to %d, scale %d" % (r, q, a, b, s), (r, q, a, b, s)) for r in range(3) for q in sorted({0, r}) for a in range(3) for b in range(3) for s in (0, 1)], body)

class Grown:
    """a list of which the first k elements are known by item; appended: what was appended since"""
    def __init__(self, k, item): self.k = k; self.item = item; self.new = []
    def append(self, x): self.new.append(x)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        unsup("list method %s" % n)
class MapInv(Inv):
    """the list holds the images of the elements before, in their order"""
    def __init__(self, name): self.names = (name,)
    def check(self, L, loc, k, when):
        v = loc[self.names[0]]; lab = "invariant %s (%s): " % (when, L.key[0].rpartition(".")[2])
        if L.k is None: check("inv", lab + "empty list", isinstance(v, list) and not v)
        else:
            ok = isinstance(v, Grown) and v.k is L.k and len(v.new) == 1
            check("inv", lab + "one element is appended", ok)
            if ok: RUN.ghost["image"](L.k, v.new[0])
    def havoc(self, L, loc, k):
        L.bufs = []; g = Grown(k, None); RUN.ghost["grown"] = g; return {self.names[0]: g}
INV[(MODEL + ".SphericalHarmomicGeomagneticModel._decompose_coefficients", 0)] = MapInv("components")
def decomposition(res, budget):
    """the components of a model: those of its coefficients in their order, each with its evaluation method"""
    def body():
        m = load(MODEL); co = load("eoxmagmod.magnetic_model.coefficients"); n = ivar("components"); RUN.st.assume(cmp(">=", n, 0)); memo = {}
        class TD(co.SparseSHCoefficientsTimeDependent):
            def __init__(self): pass
        class Cmb(co.CombinedSHCoefficients):
            def __init__(self, scales, sets): self.scales = scales; self.sets = sets
            @property
            def time_scales(self): return self.scales
            def get_coefficient_sets(self, **o):
                if not self.sets: raise AttributeError("get_coefficient_sets")
                return [Tok("set")]
        class Other(co.SHCoefficients):
            def __init__(self): pass
        kinds = [(TD, (), True), (Cmb, (["one"], True), True), (Cmb, (["one", "two"], True), False), (Cmb, (["one"], False), False), (Other, (), False)]
        def item(k):
            if ikey(k) not in memo:
                c = 0
                while c < 4 and not choose(): c += 1
                memo[ikey(k)] = ((R(app("START", k)), R(app("END", k))), kinds[c][0](*kinds[c][1]), kinds[c][2])
            return memo[ikey(k)][:2]
        class Coefs:
            def decompose(self): return SymList(n, item)
        mod = object.__new__(m.SphericalHarmomicGeomagneticModel)
        def image(k, x):
            item(k); v, c, interp = memo[ikey(k)]
            check("inv", "the component with its validity and method", isinstance(x, tuple) and len(x) == 3 and x[0] is v and x[2] is c and x[1] == (mod._eval_interpolated if interp else mod._eval_default))
        RUN.ghost["image"] = image
        out = mod._decompose_coefficients(Coefs())
        check("post", "the list of the components", out is RUN.ghost["grown"] and not out.new)
        check("post", "all components", cmp("==", out.k, n))
    verify(res, "model.SphericalHarmomicGeomagneticModel._decompose_coefficients", [("", ())], body)
