"""Library functions as seen by the verifier (trusted contracts)."""
import z3
import terms as T
from terms import *
import prover as P
from cexec import D, mkd, nanof, valof, NULL, Null, Ptr, Ref, MaybeNull, Opaque, Unsupported, NANV, UNDEF

def f1(name):
    def g(ex, st, args, n):
        x = args[0] if not isint(args[0]) else real(args[0])
        return mkd(nanof(x), app(name, valof(x)))
    return g
def intsqrt(st, v):
    """square root of a quotient of integers: SQ(n)/SQ(d) for n >= 0, d > 0"""
    import ring, math
    if T.ASG[0] is not None or not isinstance(v, RT): return None
    try: e = ring.rat(v)
    except Exception: return None
    def ints(p):
        den = 1
        for c in p.values(): den = den * c.denominator // math.gcd(den, c.denominator)
        out = 0
        for m, c in p.items():
            x = int(c * den)
            for at, k in m:
                t = ring.ATRT[at]
                if not (isinstance(t, tuple) and t[0] == "i"): return None, None
                for _ in range(k): x = IP({(t[1],): 1}) * x
            out = out + x
        return out, den
    n, a = ints(e.n); d, b = ints(ring.expand(e.d))
    if n is None or d is None: return None
    n, d = n * b, d * a                      # (n/a)/(d/b)
    if P.decide(st, cmp(">=", n, 0)) is not True or P.decide(st, cmp(">", d, 0)) is not True: return None
    return app("SQ", n) / app("SQ", d)
def sqrt_(ex, st, args, n):
    x = args[0] if not isint(args[0]) else real(args[0])
    v = valof(x)
    if isinstance(v, RT) and v.op == "int" : r = app("SQ", v.a[0])
    elif isinstance(v, RT) and v.op == "const" and v.a[0].denominator == 1: r = app("SQ", int(v.a[0]))
    else: r = intsqrt(st, v) or app("SQRT", v)
    g = cmp(">=", v, 0)
    if g is not True: ex.oblige(st, "domain", "sqrt argument", or_(nanof(x), g) if isinstance(x, D) else P.NonNeg(v))
    return mkd(nanof(x), r)
def fabs_(ex, st, args, n):
    x = args[0]; v = valof(x)
    if nanof(x) is False and T.ASG[0] is None and isinstance(v, RT) and v.op not in ("var", "const"):
        sg = P.sign(st, v)
        if sg in (2, 1, 0): return v
    return mkd(nanof(x), rite(cmp(">=", v, 0), v, rneg(v)))
def abs_(ex, st, args, n):
    v = args[0]
    if isinstance(v, int): return abs(v)
    d = P.decide(st, cmp(">=", v, 0))
    ex.oblige(st, "overflow", "abs", cmp(">", v, -2**31))
    if d is True: return v
    if d is False: return -v
    out = []
    for b, s in ex.fork(st, cmp(">=", v, 0)): out.append((s, v if b else -v))
    return out
def isnan_(ex, st, args, n): return ex.asint(nanof(args[0])) if not isinstance(nanof(args[0]), bool) else int(nanof(args[0]))
def isfinite_(ex, st, args, n):
    c = not_(nanof(args[0])); return ex.asint(c)
def floor_(ex, st, args, n):
    x = args[0]; v = valof(x)
    if v.op == "int": return x
    if T.ASG[0] is not None:
        import trace, math
        return mkd(nanof(x), real(math.floor(trace.evr(v, T.ASG[0]))))
    return mkd(nanof(x), real(T.floorint(v, zr(v))))
def nan_(ex, st, args, n): return NANV
def hypot_(ex, st, args, n):
    a, b = args; return mkd(False if nanof(a) is False and nanof(b) is False else or_(nanof(a), nanof(b)), app("SQRT", valof(a) * valof(a) + valof(b) * valof(b)))
def f2(name):
    def g(ex, st, args, n):
        a, b = args
        return mkd(False if nanof(a) is False and nanof(b) is False else or_(nanof(a), nanof(b)), app(name, valof(a), valof(b)))
    return g
def malloc_(ex, st, args, n):
    size = args[0]
    obj = "heap%s" % ".".join(str(x)[-5:] for x in st.frame + (n["id"],))
    k = 0
    while obj in st.arrays: k += 1; obj = obj.split("#")[0] + "#%d" % k
    sz = size
    if all(c % 8 == 0 for c in terms_of(size).values()): sz = mk({m: c // 8 for m, c in terms_of(size).items()})
    else: raise Unsupported("allocation size %r" % size)
    a = P.Arr(fresh_name(obj), sz, 8, "double", label="allocated array")
    st.arrays[obj] = a
    st.ghost.setdefault("heap", [])
    st.ghost["heap"] = st.ghost["heap"] + [obj]
    if T.ASG[0] is not None: return Ptr(obj, 0)
    fail = z3.Bool(fresh_name("allocation fails"))
    st.ghost["failed"] = {**st.ghost.get("failed", {}), obj: fail}
    return MaybeNull(fail, Ptr(obj, 0))
def calloc_(ex, st, args, n):
    return malloc_(ex, st, [args[0] * args[1]], n)
def free_(ex, st, args, n):
    p = args[0]
    if isinstance(p, Null): return None
    if isinstance(p, MaybeNull): p = p.ptr
    if isinstance(p, Ptr):
        a = st.arrays[p.obj]
        ex.oblige(st, "bounds", "free of a block start", and_(cmp("==", p.off, 0), not a.freed))
        b = a.clone(); b.freed = True; st.arrays[p.obj] = b
        return None
    raise Unsupported("free of %r" % (p,))

def pow_(ex, st, args, n):
    x, y = (a if not isint(a) else real(a) for a in args)
    nan = False if nanof(x) is False and nanof(y) is False else or_(nanof(x), nanof(y))
    e = valof(y); x = valof(x)
    if e.op == "const":
        q = e.a[0]
        if q.denominator == 1 and 0 <= q <= 64: return mkd(nan, app("PW", x, int(q)))
        import fractions
        if abs(q - fractions.Fraction(1, 3)) < fractions.Fraction(1, 2 ** 53):
            ex.oblige(st, "domain", "cube root by pow", P.NonNeg(x)); return mkd(nan, app("CBRT", x))
        if q == fractions.Fraction(1, 2): ex.oblige(st, "domain", "square root by pow", P.NonNeg(x)); return mkd(nan, app("SQRT", x))
    return mkd(nan, app("POW", x, e))
def copysign_(ex, st, args, n):
    x, y = args; v = valof(x)
    if nanof(y) is False and T.ASG[0] is None and P.sign(st, valof(y)) == 2 and P.sign(st, v) in (2, 1, 0): return x
    m = rite(cmp(">=", v, 0), v, rneg(v))
    if nanof(y) is not False: raise Unsupported("sign of NaN")
    return mkd(nanof(x), rite(cmp(">=", valof(y), 0), m, rneg(m)))          # the sign of zero is not modelled

def memset_array(ex, st, p, v, size):
    """memset(p, 0, number of bytes) of doubles"""
    a = ex.arr(st, p.obj)
    if a.kind != "double" or a.stride is not None or isinstance(v, IP) or v != 0: raise Unsupported("memset of %r" % (p,))
    t = terms_of(size) if isinstance(size, IP) else {(): size}
    if any(c % 8 for c in t.values()): raise Unsupported("memset of %r bytes" % (size,))
    n = mk({m: c // 8 for m, c in t.items()}); end = p.off + n
    ex.oblige(st, "bounds", "memset of %s" % a.label, and_(cmp(">=", size, 0), cmp(">=", p.off, 0), cmp("<=", end, a.size), not a.freed))
    if a.readonly: ex.oblige(st, "frame", "memset of the read-only %s" % a.label, False)
    b = a.clone(); b.base = fresh_name(a.label); b.writes = (); old = st.copy()
    inside = lambda k: and_(cmp("<=", p.off, k), cmp("<", k, end))
    P.FACTS.setdefault(b.base, []).extend([P.ArrFact(P.L1(), inside, lambda k: real(0), "memset"), P.ArrFact(P.L1(), lambda k: not_(inside(k)), lambda k: P.aread(old, a, k), "memset")])
    st.arrays[p.obj] = b; st.touched_arr.add(p.obj)
    return p
def memset_(ex, st, args, n):
    """memset(p, 0, sizeof(*p)) of a structure"""
    p, v, size = args
    if isinstance(p, Ptr): return memset_array(ex, st, p, v, size)
    a = n["inner"][1]
    while a.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"): a = a["inner"][0]
    t = ex.ty.pointee(ex.ty.of(a)); f = ex.ty.fields(t)
    if not isinstance(p, Ref) or f is None or isinstance(v, IP) or v != 0: raise Unsupported("memset of %r" % (p,))
    ex.oblige(st, "bounds", "memset of the whole structure", cmp("==", size, ex.ty.size(t)))
    zero = {}
    for k, ft in f:
        r = ex.ty.resolve(ft)
        zero[k] = ex.zero(r)
    ex.store(st, ("cell", p.cell, p.path), zero)
    return p
def decref_(ex, st, args, n):
    st.ghost["decref"] = st.ghost.get("decref", ()) + (args[0],); return None
def pyerr_(ex, st, args, n): return NULL

TABLE = {"Py_DECREF": decref_, "memset": memset_, "PyErr_Format": pyerr_, "pow": pow_, "copysign": copysign_, "sin": f1("SIN"), "cos": f1("COS"), "tan": f1("TAN"), "asin": f1("ASIN"), "acos": f1("ACOS"), "sqrt": sqrt_, "fabs": fabs_, "abs": abs_,
         "isnan": isnan_, "__builtin_isnan": isnan_, "__isnan": isnan_, "isfinite": isfinite_, "__builtin_isfinite": isfinite_, "__finite": isfinite_, "finite": isfinite_,
         "floor": floor_, "__builtin_nanf": nan_, "__builtin_nan": nan_, "nan": nan_, "hypot": hypot_, "atan2": f2("ATAN2"), "cbrt": f1("CBRT"),
         "malloc": malloc_, "calloc": calloc_, "free": free_, "fmod": f2("FMOD")}
