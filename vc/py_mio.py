"""Python functions: the ionospheric models (C19)."""
from py_model import *
from py_time import mut, sun5
MIO = "eoxmagmod.magnetic_model.model_mio"
ELEMENTWISE = ("f107", "lat_sol", "lon_sol")
def elements_of(o, idx):
    """the options at one element: scalars as they are, arrays at the leading part of the index"""
    out = {}
    for k, v in o.items():
        if k in ELEMENTWISE and v is not None:
            a = asarray(v); out[k] = rv(a.elem(idx[:a.ndim]))
        else: out[k] = v
    return out
def eltwise(k, time, location, cin, cout, options):
    """a function, element by element, of the time, the point, the elements of the options"""
    t, x = asarray(time), last3(location); cin, cout = ctype(cin), ctype(cout); lead = x.shape[:-1]
    for a in [t] + [asarray(options[n]) for n in ELEMENTWISE if options.get(n) is not None]:
        if a.ndim > len(lead): raise ValueError("dimensions")
        for p, q in zip(a.shape, lead):
            if not (p is q or sameext(p, q)): raise ValueError("shape mismatch")
    f, h, r = x.snap(), t.snap(), t.ndim
    frozen = {n: asarray(v).copy() if n in ELEMENTWISE and v is not None else v for n, v in options.items()}
    return A(lambda idx: value(idx[-1], k, h(idx[:-1][:r]), comps(f, idx[:-1]), cin, cout, elements_of(frozen, idx[:-1])), x.shape)
def value(c, k, t, p, cin, cout, o):
    o = {n: v for n, v in o.items() if v is not None}
    num = [o[n] for n in ELEMENTWISE if n in o]
    return field("MIO " + " ".join(sorted(o)) + " ", c, [t] + num, p, [k, real(cin), real(cout), okey({n: v for n, v in o.items() if n not in ELEMENTWISE})])
class Layer:
    def __init__(self, name): self.k = rvar(name); self.degree = I(ivar("degree " + name)); self.min_degree = I(ivar("min_degree " + name)); self.validity = (R(rvar("start " + name)), R(rvar("end " + name)))
    def eval(self, time, location, input_coordinate_system=SPH, output_coordinate_system=SPH, **options):
        return eltwise(self.k, time, location, input_coordinate_system, output_coordinate_system, options)
def given(shape, kinds):
    """options: absent, a scalar, an array of the shape"""
    o = {}
    for n, k in zip(ELEMENTWISE, kinds):
        if k == 1: o[n] = R(rvar(n), z3.Bool("nan " + n) if n == "f107" else False)
        elif k == 2: o[n] = arr(n, shape, n == "f107")
    return o
def mio(res, budget):
    def primary(rt, rc, cin, cout, kinds):
        m = load(MIO); t, x, shape, g, pairs = inputs(rt, rc)
        mod = object.__new__(m.MIOPrimaryGeomagneticModel); mod.model_below_ionosphere = lo = Layer("below"); mod.model_above_ionosphere = hi = Layer("above")
        mod.height, mod.earth_radius = R(rvar("height")), R(rvar("earth_radius"))
        o = given(shape, kinds); o["max_degree"] = Tok("max_degree")
        te, p = t.elem(g[:rt]), comps(x.snap(), g[:rc]); s = conv(cin, SPH, p)
        at = {n: rv(asarray(v).elem(g[:asarray(v).ndim])) if n in ELEMENTWISE else v for n, v in o.items()}
        out = accepted(lambda: mod.eval(t, x, cin, cout, **o), pairs)
        k = lo.k if branch(tob(op1("<=", s[2], op1("+", mod.height, mod.earth_radius)))) else hi.k
        same3("at and below the layer the model below, above it the model above", out, [value(c, k, te, s, SPH, cout, at) for c in range(3)], g, shape)
    kin = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (2, 2, 2), (1, 1, 2), (0, 2, 1)]
    cs = [(c, d) for c in range(3) for d in range(3)]
    verify(res, "model_mio.MIOPrimaryGeomagneticModel.eval", [("time of rank %d, locations of rank %d, %d to %d, options %s" % (a, b, c, d, k), (a, b, c, d, k))
           for a, b in CASES for n, (c, d) in enumerate(cs) for k in (kin if (c, d) == (SPH, SPH) else [kin[n % len(kin)]])], primary)
    def limits():
        m = load(MIO); mod = m.MIOPrimaryGeomagneticModel(Layer("below"), Layer("above"))
        lo, hi = mod.model_below_ionosphere, mod.model_above_ionosphere
        check("post", "the two models in their places", lo.k is rvar("below") or repr(lo.k) == repr(rvar("below")))
        t = R(rvar("t")); inside = lambda v: and_(tob(op1("<=", v[0], t)), tob(op1("<=", t, v[1])))
        a, b = inside(mod.validity), and_(inside(lo.validity), inside(hi.validity))
        check("post", "valid where both are", and_(implies(a, b), implies(b, a)))
        for n, op, q in (("degree", ">=", max), ("min_degree", "<=", min)):
            v = ival(getattr(mod, n)); u, w = ival(getattr(lo, n)), ival(getattr(hi, n))
            check("post", "%s of the two" % n, and_(cmp(op, v, u), cmp(op, v, w), or_(cmp("==", v, u), cmp("==", v, w))))
        same("radius of the layer", op1("+", lift(mod.height), lift(mod.earth_radius)), R(real(Fraction(110) + Fraction("6371.2"))))
    verify(res, "model_mio.MIOPrimaryGeomagneticModel", [("limits", ())], limits)
    def dipole(rt, rc, cin, cout, kinds):
        m = load(MIO); t, x, shape, g, pairs = inputs(rt, rc)
        mod = object.__new__(m.DipoleMIOGeomagneticModel); co = Coef("coefficients"); co.validity = (R(rvar("start")), R(rvar("end")))
        mod.coefficients = co; mod.wolf_ratio = R(rvar("wolf_ratio")); mod.north_pole = (R(rvar("lat_ngp")), R(rvar("lon_ngp")))
        def ev(method, coefficients, time, location, a, b, **o):
            check("pre", "expansion of the Fourier coefficients of the model", method == mod._eval_fourier2d and coefficients is co)
            return eltwise(rvar("expansion"), time, location, a, b, o)
        mod._eval = ev
        o = given(shape, kinds); o["max_degree"] = Tok("max_degree")
        te, p = t.elem(g[:rt]), comps(x.snap(), g[:rc])
        at = {n: rv(asarray(v).elem(g[:asarray(v).ndim])) if n in ELEMENTWISE else v for n, v in o.items()}
        f = at.pop("f107", None)
        out = accepted(lambda: mod.eval(t, x, cin, cout, **o), pairs)
        ok = and_(not_(te.n), cmp("<=", co.validity[0].v, te.v), cmp("<=", te.v, co.validity[1].v))
        if f is not None: ok = and_(ok, not_(f.n))
        if branch(ok):
            want = [value(c, rvar("expansion"), te, p, cin, cout, at) for c in range(3)]
            if f is not None: want = [op1("*", w, op1("+", 1, op1("*", mod.wolf_ratio, f))) for w in want]
        else: want = [NANR] * 3
        same3("the expansion times 1 + Wolf ratio * F10.7; NaN out of the limits or where F10.7 is NaN", out, want, g, shape)
    verify(res, "model_mio.DipoleMIOGeomagneticModel.eval", [("time of rank %d, locations of rank %d, %d to %d, options %s" % (a, b, c, d, k), (a, b, c, d, k))
           for a, b in CASES for n, (c, d) in enumerate(cs) for k in (kin if (c, d) == (SPH, SPH) else [kin[n % len(kin)]]) if not (k[0] == 2 and a == 0 and b > 0)], dipole)
    def expansion(q, r, cin, cout, kinds, scaled):
        m = load(MIO); shape, g = extents(r); t = arr("t", shape[:q], True); x = points("x", shape)
        mod = object.__new__(m.DipoleMIOGeomagneticModel); lat, lon = R(rvar("lat_ngp")), R(rvar("lon_ngp")); mod.north_pole = (lat, lon)
        class Series(Tok):
            is_internal = B(z3.Bool("internal"))
            mjd2000_to_year_fraction = staticmethod(uf("YEARFRACTION"))
            def get_f2fs_coeff_set(self, min_degree=-1, max_degree=-1, **other): return Tok("set", self.v, key(min_degree), key(max_degree))
        co = Series("series"); o = {"max_degree": Tok("max_degree")}
        for n, k in zip(("lat_sol", "lon_sol"), kinds):
            if k is not None: o[n] = None if k < 0 else arr(n, shape[:k]) if k else R(rvar(n))
        el = {n: rv(asarray(o[n]).elem(g[:asarray(o[n]).ndim])) for n in ("lat_sol", "lon_sol") if o.get(n) is not None}
        sc = R(real(1))
        if scaled: o["scale"] = sc = R(rvar("scale"))
        te, p = rv(t.elem(g[:q])), comps(x.snap(), g)
        out = mod._eval_fourier2d(co, t, x, cin, cout, **o)
        if len(el) == 2: ls, os_ = el["lat_sol"], el["lon_sol"]
        else:
            z = R(real(0)); s = sun5("SUN", te, z, z, z, z); ls, os_ = s[0], op1("*", -1, s[2])
        args = [fapp("YEARFRACTION", te), mut(te, lat, lon, ls, os_)]
        ex = [Tok("set", co.v, key(-1), key(o["max_degree"])).v, real(cin), real(cout), key(co.is_internal)]
        same3("minus the scaled gradient of the series at the year fraction and the magnetic time", out, [op1("*", field("SHF", "g%d" % c, args, p, ex), op1("*", -1, sc)) for c in range(3)], g, shape)
    ks = lambda q, r: [(None, None), (-1, -1), (0, 0), (0, None), (r, r)] + ([(q, q)] if q != r and q else [])
    verify(res, "model_mio.DipoleMIOGeomagneticModel._eval_fourier2d", [("time of rank %d, locations of rank %d, %d to %d, sub-solar %s, scale %d" % (q, r, c, d, k, s), (q, r, c, d, k, s))
           for r in range(3) for q in range(r + 1) for n, (c, d) in enumerate(cs) for k in (ks(q, r) if (c, d) == (SPH, SPH) else ks(q, r)[:1]) for s in ((0, 1) if (c, d) == (SPH, SPH) else (n % 2,))], expansion)
