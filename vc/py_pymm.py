"""Contracts of the functions of the extension module _pymm as seen from Python (element by element; proved for the C functions under C06-C11)."""
import pyvc as V
from pyvc import *
GEOD, SPH, CART = 0, 1, 2
POT, GRAD, BOTH = 1, 2, 3
PIC = rt("const", frac(math.pi)); DEG = PIC / real(180)

class Tok:
    """an object passed on as it is (coefficients, options)"""
    def __init__(self, name, *args): self.v = app("tok " + name, *args) if args else rvar("tok " + name); self.name = name
    def __eq__(self, o): return self is o or isinstance(o, Tok) and o.v is self.v
    __hash__ = object.__hash__
    def __repr__(self): return "Tok(%s)" % self.name
def key(x):
    """term of any argument"""
    if isinstance(x, Tok): return x.v
    if isinstance(x, RT): return x
    if isinstance(x, (list, tuple)): return app("tuple%d" % len(x), *[key(i) for i in x])
    if isinstance(x, (R, I, int, bool, float, B)) or isinstance(x, A) and x.ndim == 0:
        x = lift(x)
        if isinstance(x, (B, bool)): return real(iz(z3.If(zb(tob(x)), z3.IntVal(1), z3.IntVal(0))))
        return rv(x).v
    if x is None: return rvar("tok None")
    if isinstance(x, str): return rvar("str " + x)
    if isinstance(x, A):
        RUN.ghost.setdefault("arrays", []).append(x.buf); return rvar("array %d" % id(x.buf))
    unsup("argument of the type %s" % type(x).__name__)
def ctype(x):
    i = ival(x)
    if not isinstance(i, int): unsup("symbolic coordinate type")
    if i not in (0, 1, 2): raise ValueError("invalid coordinate type")
    return i
def last3(a):
    a = asarray(a)
    if not a.ndim or not sameext(a.shape[-1], 3): raise ValueError("Invalid input array dimension")
    return a
def comps(f, idx): return [f(idx + (c,)) for c in range(3)]
def conv(cin, cout, p):
    """conversion of the point p: one function per pair of coordinate systems and component (C10)"""
    if cin == cout: return [R(rv(x).v, rv(x).n) for x in p]
    return [fapp("CONV%d%d%d" % (cin, cout, c), *p) for c in range(3)]
def convert(arr_in, coord_type_in=GEOD, coord_type_out=GEOD):
    a = last3(arr_in); cin, cout = ctype(coord_type_in), ctype(coord_type_out); f = a.snap()
    return A(lambda idx: conv(cin, cout, comps(f, idx[:-1]))[idx[-1]], a.shape)
def rot(name, v, *ang):
    """the rotations of k_walk.py with NaN"""
    import k_walk
    C = {"sph2cart": k_walk.SphToCart, "cart2sph": k_walk.CartToSph, "sph2geod": k_walk.SphToGeod}[name]
    v = [rv(x) for x in v]; ang = [rv(x) for x in ang]
    out = C.value(None, [x.v for x in v], *[[a.v] for a in ang])
    dep = {"sph2cart": ((0, 1, 2), (0, 1, 2), (0, 2)), "cart2sph": ((0, 1, 2), (0, 1), (0, 1, 2)), "sph2geod": ((0, 2), (1,), (0, 2))}[name]
    use = {"sph2cart": ((0, 1), (0, 1), (0,)), "cart2sph": ((0, 1), (1,), (0, 1)), "sph2geod": ((0,), (), (0,))}[name]
    r = []
    for c in range(3):
        n = False
        n = disj(*[v[k].n for k in dep[c]], *[ang[k].n for k in use[c]])
        r.append(R(out[c], n))
    return r
def vrot(name):
    def call(arr_in, *ang):
        a = last3(arr_in); ang = [asarray(x) for x in ang]; lead = a.shape[:-1]
        for x in ang:
            if x.ndim > len(lead): raise ValueError("The array dimensions do not match")
            for n, m in zip(x.shape, lead):
                if not sameext(n, m): raise ValueError("The array dimensions do not match")
        f = a.snap(); gs = [(x.snap(), x.ndim) for x in ang]
        return A(lambda idx: rot(name, comps(f, idx[:-1]), *[g(idx[:r]) for g, r in gs])[idx[-1]], a.shape)
    return call
def kw(f, names):
    def call(*a, **k):
        for n in k:
            if n not in names: raise TypeError("unexpected argument %s" % n)
        if len(a) > len(names): raise TypeError("too many arguments")
        for n, v in zip(names, a):
            if n in k: raise TypeError("argument given twice")
            k[n] = v
        return f(**k)
    return call
def scale3(s):
    a = asarray(s)
    if a.ndim == 0: return lambda c: a.elem(())
    if a.ndim == 1 and sameext(a.shape[0], 3): return lambda c: a.elem((c,))
    raise ValueError("Invalid scale")
def field(name, c, args, pt, extra):
    """component c of a field: a function of its arguments; NaN if the point or the time is NaN"""
    n = False
    n = disj(*[rv(x).n for x in args + pt])
    return R(app("%s%s" % (name, c), *[rv(x).v for x in args + pt], *extra), n)
def evaluator(name, targs):
    def call(arr_x, coord_type_in=GEOD, coord_type_out=GEOD, mode=GRAD, is_internal=True, scale_potential=1.0, scale_gradient=1.0, degree=-1, coef=None, coef_set_list=None, coef_set=None, **t):
        x = last3(arr_x); cin, cout = ctype(coord_type_in), ctype(coord_type_out); f = x.snap(); lead = x.shape[:-1]
        ts = [asarray(t[k]) for k in targs]
        shape = lead
        for a in ts:
            m = min(a.ndim, len(lead))
            for p, q in zip(a.shape[:m], lead[:m]):
                if not sameext(p, q): raise ValueError("array shape mismatch")
            if a.ndim > len(shape): shape = a.shape
        gs = [(a.snap(), a.ndim) for a in ts]
        src = coef if coef is not None else coef_set_list if coef_set_list is not None else coef_set
        if hasattr(src, "__iter__") and not isinstance(src, (list, tuple)): src = list(src)
        k = [key(src), real(cin), real(cout), key(bool(is_internal) if isinstance(is_internal, (bool, int)) else is_internal)] + ([key(degree)] if name == "SH" else [])
        md = ival(mode); sg = scale3(scale_gradient); sp = asarray(scale_potential)
        r = len(lead)
        def grad(idx):
            lv = idx[:-1]; c = idx[-1]
            return op1("*", field(name, "g%d" % c, [g(lv[:n]) for g, n in gs], comps(f, lv[:r]), k), sg(c))
        def pot(idx): return op1("*", field(name, "p", [g(idx[:n]) for g, n in gs], comps(f, idx[:r]), k), sp.elem(()))
        G = lambda: A(grad, tuple(shape) + (3,)); Q = lambda: A(pot, tuple(shape))
        if md == GRAD: return G()
        if md == POT: return Q()
        if md == BOTH: return (Q(), G())
        raise ValueError("invalid mode")
    return call
sheval = kw(evaluator("SH", []), ["arr_x", "coef", "coord_type_in", "coord_type_out", "mode", "is_internal", "degree", "scale_potential", "scale_gradient"])
shevaltemp = kw(evaluator("SHT", ["arr_t"]), ["arr_t", "arr_x", "coef_set_list", "coord_type_in", "coord_type_out", "mode", "is_internal", "scale_potential", "scale_gradient"])
sheval2dfs = kw(evaluator("SHF", ["arr_t1", "arr_t2"]), ["arr_t1", "arr_t2", "arr_x", "coef_set", "coord_type_in", "coord_type_out", "mode", "is_internal", "scale_potential", "scale_gradient"])
STUBS["eoxmagmod._pymm"] = stub("eoxmagmod._pymm", GEODETIC_ABOVE_WGS84=GEOD, GEOCENTRIC_SPHERICAL=SPH, GEOCENTRIC_CARTESIAN=CART, POTENTIAL=POT, GRADIENT=GRAD, POTENTIAL_AND_GRADIENT=BOTH,
    convert=kw(convert, ["arr_in", "coord_type_in", "coord_type_out"]), vrot_sph2cart=kw(vrot("sph2cart"), ["arr_in", "arr_lat", "arr_lon"]) if False else vrot("sph2cart"), vrot_cart2sph=vrot("cart2sph"), vrot_sph2geod=vrot("sph2geod"),
    sheval=sheval, shevaltemp=shevaltemp, sheval2dfs=sheval2dfs)

def okey(o):
    """term of keyword options"""
    return app("options " + " ".join(sorted(o)), *[key(o[k]) for k in sorted(o)]) if o else rvar("no options")

STUBS["eoxmagmod._pytimeconv"] = stub("eoxmagmod._pytimeconv", decimal_year_to_mjd2000=uf("Y2M"), mjd2000_to_decimal_year=uf("M2Y"), mjd2000_to_year_fraction=uf("M2F"))
