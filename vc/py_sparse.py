"""Python functions: placement, subsets and time nodes of the sparse coefficients (C15)."""
from py_coeff import *
# ---------------------------------------------------------------- elements of an axis of arbitrary length
class Axis:
    """the elements of the axis which are looked at; the facts on all elements are instantiated at these"""
    def __init__(self, n): self.n = n; self.seen = {}; self.facts = []
    def within(self, k): return and_(cmp("<=", 0, k), cmp("<", k, self.n))
    def touch(self, k):
        if ikey(k) in self.seen: return k
        self.seen[ikey(k)] = k
        for f in self.facts: self.say(f, k)
        return k
    def say(self, f, k): RUN.st.assume(implies(self.within(k), f(k)))
    def fact(self, f):
        self.facts.append(f)
        for k in list(self.seen.values()): self.say(f, k)
    def fresh(self): k = fresh_int("element"); RUN.st.assume(self.within(k)); return self.touch(k)
def axis_of(n):
    """the axis of the extent"""
    if isinstance(n, MaskAxis): return axis_of(n.shape[0])
    ax = RUN.ghost["axes"].get(ikey(ival(n)))
    if ax is None: unsup("another axis")
    return ax
def an_element(n):
    """an arbitrary element of the axis, as an index"""
    k = axis_of(n).fresh()
    if isinstance(n, MaskAxis): RUN.st.assume(tob(n.f((k,)))); return (k,)
    return k
def inside(n, i):
    """the element i belongs to the axis"""
    return tob(n.f((i,))) if isinstance(n, MaskAxis) else axis_of(n).within(i)
def index_in(n, i): return (i,) if isinstance(n, MaskAxis) else i
def notempty(n):
    ax = axis_of(n)
    for k in list(ax.seen.values()):
        if P.decide(RUN.st, inside(n, k)) is True: return True
    if branch(inside(n, RUN.ghost["w"])): return True
    if choose(): an_element(n); return True
    ax.fact(lambda k: not_(inside(n, k))); return False
MaskAxis.__gt__ = lambda s, o: notempty(s) if isinstance(o, int) and o == 0 else unsup("number of selected elements")
MaskAxis.__bool__ = lambda s: notempty(s) if "axes" in RUN.ghost else True
MaskAxis.__ne__ = lambda s, o: notempty(s) if type(o) is int and o == 0 else not _maskeq(s, o)
_maskeq = MaskAxis.__eq__
MaskAxis.__eq__ = lambda s, o: not notempty(s) if type(o) is int and o == 0 else _maskeq(s, o)
import pyvc as _pvm; _pvm.NOTEMPTY = notempty
def extreme(big):
    def f(self, *a, **k):
        if a or k or self.ndim != 1 or isinstance(self.shape[0], int): unsup("extreme of this array")
        n = self.shape[0]
        if not notempty(n): raise ValueError("zero-size array")
        g = self.snap(); e = an_element(n); v = ival(g((e,)))
        if v is None: unsup("extreme of reals")
        axis_of(n).fact(lambda j: implies(inside(n, j), cmp("<=" if big else ">=", ival(g((index_in(n, j),))), v)))
        return I(v)
    return f
A.max, A.min = extreme(True), extreme(False)
def nonzero(self):
    if self.kind != "b" or self.ndim != 1: unsup("nonzero of this array")
    r = A(lambda idx: I(idx[0][0]), (MaskAxis(self.snap(), self.shape),), "i"); r.buf.safe = self.shape[0]; return (r,)
A.nonzero = nonzero
def bit(c):
    """1 if c, 0 otherwise"""
    if isinstance(c, bool): return I(int(c))
    b = fresh_int("bit"); RUN.st.assume(or_(and_(c, cmp("==", b, 1)), and_(not_(c), cmp("==", b, 0)))); return I(b)
def astype(self, dtype=None, *a, **k):
    if self.kind == "b" and dtype in ("int", int, "int32", "int64", "i", "int8", "uint8"):
        f = self.snap(); return A(memo(lambda idx: bit(tob(f(idx)))), self.shape, "i")
    return self.copy()
A.astype = astype
def absolute(x):
    def f(v):
        v = lift(v); i = ival(v)
        if i is None: return op1("abs", v, v) if False else unsup("abs of reals")
        if isinstance(i, int): return I(abs(i))
        a = fresh_int("abs"); RUN.st.assume(or_(and_(cmp(">=", i, 0), cmp("==", a, i)), and_(cmp("<", i, 0), cmp("==", a, -i)))); return I(a)
    if isinstance(x, A): r = elementwise(f, x); r = A(memo(r.snap()), r.shape); r.kind = x.kind; return r
    return f(x)
NUMPY.abs = NUMPY.absolute = NUMPY.fabs = absolute
def stacked(arrays, axis=0):
    arrays = [asarray(a) for a in arrays]; r = arrays[0].ndim
    if axis not in (-1, r): unsup("stack along this axis")
    for a in arrays[1:]:
        if a.ndim != r or not all(p is q or sameext(p, q) for p, q in zip(a.shape, arrays[0].shape)): raise ValueError("all input arrays must have the same shape")
    fs = [a.snap() for a in arrays]
    def f(idx):
        if not isinstance(idx[-1], int): unsup("symbolic index of a fixed axis")
        return fs[idx[-1]](idx[:-1])
    return A(f, (*arrays[0].shape, len(arrays)), "i")
NUMPY.stack = stacked
NUMPY.column_stack = lambda a: stacked(a, -1)
def ordering(x):
    x = asarray(x)
    if x.ndim != 1: unsup("argsort of this array")
    n = x.shape[0]
    if isinstance(n, int):
        if n != 1: unsup("argsort of an array of a fixed length")
        r = A(lambda idx: I(0), (n,), "i"); r.buf.safe = n; return r
    f = x.snap(); s = Sorted(SymList(ival(n), lambda k: R(rv(f((k,))).v)), None)
    def perm(idx): s.known(idx[0]); return I(s.perm(idx[0]))
    r = A(perm, (n,), "i"); r.buf.safe = n; RUN.ghost["order"] = s; return r
NUMPY.argsort = lambda x, *a, **k: ordering(x)
_get, _set = A.__getitem__, A.__setitem__
def isint(k): return isinstance(k, A) and k.kind == "i" and k.ndim > 0
def keys(self, key):
    key = list(key) if isinstance(key, tuple) else [key]
    if Ellipsis not in [k for k in key if not isinstance(k, A)]: key.append(Ellipsis)
    pos = next(n for n, k in enumerate(key) if k is Ellipsis); used = len(key) - 1
    if used > self.ndim: raise IndexError("too many indices for array")
    key[pos:pos + 1] = [slice(None)] * (self.ndim - used); return key
def gather(self, key):
    if not any(isint(k) for k in (key if isinstance(key, tuple) else (key,))): return _get(self, key)
    key = keys(self, key); at = [n for n, k in enumerate(key) if isint(k)]
    if len(at) != 1 or any(k != slice(None) for n, k in enumerate(key) if n != at[0]): unsup("index of arrays of integers")
    ax, = at; ia = key[ax]
    if ia.ndim != 1 or getattr(ia.buf, "safe", None) is None or not sameext(ia.buf.safe, self.shape[ax]): unsup("index of arbitrary integers")
    f, h = self.snap(), ia.snap()
    return A(lambda idx: f(tuple(idx[:ax]) + (ival(h((idx[ax],))),) + tuple(idx[ax + 1:])), self.shape[:ax] + ia.shape + self.shape[ax + 1:], self.kind)
def scatter(self, key, val):
    if not any(isint(k) for k in (key if isinstance(key, tuple) else (key,))): return _set(self, key, val)
    key = keys(self, key); at = [n for n, k in enumerate(key) if isint(k)]; lead = at[0]
    if at != list(range(self.ndim - len(at), self.ndim)) or any(k != slice(None) for k in key[:lead]): unsup("assignment to arrays of integers")
    ias = key[lead:]; n = ias[0].shape[0]
    for k in ias:
        if k.ndim != 1 or not sameext(k.shape[0], n): unsup("assignment to arrays of integers")
    val = asarray(val); vf = bcast_to(val, self.shape[:lead] + (n,)); old = self.snap(); hs = [k.snap() for k in ias]; ext = self.shape[lead:]; ax = axis_of(n)
    place = lambda i: [ival(h((i,))) for h in hs]
    def bounds():
        e = an_element(n)
        for p, x in zip(place(e), ext):
            if not branch(and_(cmp("<=", 0, p), cmp("<", p, ival(x)))): raise IndexError("index is out of bounds")
    aside(bounds)
    if self.buf.readonly or self.imap is not None: unsup("assignment to a view")
    def g(idx):
        hit = lambda i: and_(*[cmp("==", p, c) for p, c in zip(place(i), idx[lead:])])
        w = RUN.ghost["w"]
        if branch(inside(n, w)) and branch(hit(index_in(n, w))): e = index_in(n, w)      # the positions are distinct (checked)
        elif choose():
            e = an_element(n); RUN.st.assume(hit(e))
            if P.infeasible(RUN.st): raise Infeasible()
        else: return old(idx)
        return vf(tuple(idx[:lead]) + (e,))
    def distinct():
        a, b = an_element(n), an_element(n); a_, b_ = [x[0] if isinstance(x, tuple) else x for x in (a, b)]
        RUN.st.assume(cmp("!=", a_, b_)); RUN.ghost["pair"](a_, b_)
        check("pre", "each position is assigned once", not_(and_(*[cmp("==", p, q) for p, q in zip(place(a), place(b))])))
    aside(distinct)
    self.put(g)
A.__getitem__, A.__setitem__ = gather, scatter
# ---------------------------------------------------------------- the coefficients
NN = lambda k: app_int("N", k); MM = lambda k: app_int("M", k); NODE = lambda q: app("NODE", q); VALUE = lambda k, q: app("VALUE", k, q)
def setup(T):
    G = RUN.ghost; n = ivar("coefficients"); t = ivar("nodes") if T is None else T; RUN.st.assume(cmp(">=", n, 1))
    if T is None: RUN.st.assume(cmp(">=", t, 1))
    G["coeffs"] = c = Axis(n); G["axes"] = {ikey(n): c}
    c.fact(lambda k: and_(cmp("<=", 0, NN(k)), cmp("<=", -NN(k), MM(k)), cmp("<=", MM(k), NN(k)), cmp("<=", NN(k), 46338), cmp(">=", TRI(NN(k)), 0)))
    def pair(a, b):
        """the pairs of degree and order are distinct"""
        RUN.st.assume(implies(cmp("!=", a, b), or_(cmp("!=", NN(a), NN(b)), cmp("!=", MM(a), MM(b)))))
    G["pair"] = pair; w = G["w"] = ivar("w"); RUN.st.assume(c.within(w)); c.touch(w)
    nm = A(lambda idx: I(NN(idx[0])) if idx[1] == 0 else I(MM(idx[0])), (I(n), 2), "i", readonly=True, label="indices")
    return n, t, nm
def interp_stub(time, times, coeff, kind=None, extrapolate=False, **kw):
    """interp by its contract: for each time and series the spline through the nodes; the nodes: the given ones, in ascending order"""
    G = RUN.ghost; times, coeff, time = asarray(times), asarray(coeff), asarray(time)
    check("pre", "extrapolated", extrapolate is True and not kw); nt = times.shape[0]
    if coeff.ndim != 2 or times.ndim != 1 or not sameext(coeff.shape[1], nt): unsup("shape of the series")
    e = an_element(coeff.shape[0]); k = e[0] if isinstance(e, tuple) else e; nodes(times, coeff, e, k)
    f = time.snap(); r = time.ndim
    return A(lambda idx: spline(rv(f(idx[:r])), idx[r][0] if isinstance(idx[r], tuple) else idx[r], kind), (*time.shape, coeff.shape[0]))
def nodes(times, coeff, e, k, kind="pre"):
    """the series of the element e is that of the coefficient k at the given nodes, in ascending order"""
    G = RUN.ghost; nt = times.shape[0]
    if isinstance(nt, int):
        same("the node", times.elem((0,)), -math.inf, kind); same("the value", coeff.elem((e, 0)), R(VALUE(k, 0)), kind); return
    check(kind, "all nodes", cmp("==", ival(nt), ivar("nodes"))); q, q2 = fresh_int("q"), fresh_int("q"); RUN.st.assume(and_(cmp("<=", 0, q), cmp("<", q, q2), cmp("<", q2, ivar("nodes"))))
    s = G.get("order")
    if s is None: fail(kind, "nodes in ascending order", ""); return
    for x in (q, q2):
        s.known(x); same("the times of the nodes", times.elem((x,)), R(NODE(s.perm(x))), kind); same("the values at the nodes", coeff.elem((e, x)), R(VALUE(k, s.perm(x))), kind)
    check(kind, "nodes in ascending order", cmp("<=", NODE(s.perm(q)), NODE(s.perm(q2))))
def spline(t, k, kind):
    w = RUN.ghost["w"]
    if k is not w and P.decide(RUN.st, cmp("==", k, w)) is True: k = w
    return R(app("SPLINE " + repr(kind), t.v, real(k)), t.n)
def selected(k, o):
    c = True
    for n, op in (("min_degree", ">="), ("max_degree", "<=")):
        if n in o: c = and_(c, or_(cmp("<", ival(o[n]), 0), cmp(op, NN(k), ival(o[n]))))
    return c
CLS = {"C1": ("SparseSHCoefficientsTimeDependent", {"spline_order": 2}), "C0": ("SparseSHCoefficientsTimeDependent", {"spline_order": 1}), "default": ("SparseSHCoefficientsTimeDependent", {}),
       "year": ("SparseSHCoefficientsTimeDependentDecimalYear", {}), "constant": ("SparseSHCoefficientsConstant", {})}
def conversion(name):
    """conversion of times element by element; an array for a scalar too"""
    return lambda x: elementwise(lambda v: R(app(name, rv(v).v), rv(v).n), asarray(x))
def reshape(self, *shape):
    """an axis of one element at the end"""
    shape = tuple(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
    if len(shape) != self.ndim + 1 or shape[-1] != 1 or not all(a is b or sameext(a, b) for a, b in zip(shape, self.shape)): unsup("reshape")
    f = self.snap(); return A(lambda idx: f(idx[:-1]), shape, self.kind)
A.reshape = reshape
def build(kind, bounds=False):
    m = load(COEFF); u = load("eoxmagmod.magnetic_model.util"); m.coeff_size = u.coeff_size; m.interp = interp_stub; m.INTERP_C0, m.INTERP_C1 = "C0", "C1"
    n, t, nm = setup(1 if kind == "constant" else None); name, kw = CLS[kind]; kw = dict(kw)
    if kind == "year": kw.update(to_mjd2000=conversion("TO_MJD"), to_decimal_year=conversion("TO_YEAR"))
    RUN.ghost["kind"] = kind; given = bounds and kind in ("C0", "constant") and choose()
    if given: kw.update(validity_start=R(rvar("start")), validity_end=R(rvar("end")))
    kw["is_internal"] = Tok("is_internal")
    if kind == "constant": mod = getattr(m, name)(nm, A(lambda idx: R(VALUE(idx[0], 0)), (I(n),), readonly=True), **kw)
    else: mod = getattr(m, name)(nm, A(lambda idx: R(VALUE(*idx)), (I(n), I(t)), readonly=True), A(lambda idx: R(NODE(idx[0])), (I(t),), readonly=True), **kw)
    check("post", "kind of source", mod.is_internal is kw["is_internal"])
    return mod, n, t, given, kw
def options(ks):
    o = {}
    for n, k in zip(("min_degree", "max_degree"), ks):
        if k: o[n] = I(ivar(n))
    return o
def remaining(d, o):
    """the largest degree of the coefficients of the range, 0 if there is none"""
    G = RUN.ghost; w = G["w"]; c = G["coeffs"]; d = ival(d); e = c.fresh(); some = [k for k in c.seen.values() if k is not e]
    check("post", "not less than the degree of a coefficient in the range", implies(selected(w, o), cmp(">=", d, NN(w))))
    check("post", "the degree of a coefficient in the range, or 0 if there is none", or_(*[and_(selected(k, o), cmp("==", NN(k), d)) for k in some], and_(cmp("==", d, 0), not_(selected(e, o)))))
KINDS = [(0, 0), (1, 0), (0, 1), (1, 1)]
def placement(res, cases):
    def call(kind, rt, ks):
        mod, n, t, given, kw = build(kind); o = options(ks); G = RUN.ghost; w = G["w"]; time, shape, g = times(rt); te = rv(time.elem(g))
        try: c, d = mod(time, **o)
        except (IndexError, ValueError) as e: fail("post", "accepted", repr(e)[:200]); return
        remaining(d, o)
        if kind == "year": te = R(app("TO_YEAR", te.v), te.n)
        i, j = ivar("i"), 0 if choose() else 1; RUN.st.assume(and_(cmp("<=", 0, i), cmp("<", i, TRI(ival(d) + 1)))); idx = (*g, i, j)
        if not same_shape("shape of the matrix", c, (*shape, I(TRI(ival(d) + 1)), 2)): return
        mine = lambda k: and_(selected(k, o), or_(and_(cmp(">=", MM(k), 0), j == 0, cmp("==", i, TRI(NN(k)) + MM(k))), and_(cmp("<", MM(k), 0), j == 1, cmp("==", i, TRI(NN(k)) - MM(k)))))
        if choose():       # the cell of the coefficient w of the range
            RUN.st.assume(mine(w))
            if P.infeasible(RUN.st): raise Infeasible()
            for k in list(G["coeffs"].seen.values()): G["pair"](k, w)
            got = rv(c.elem(idx))
            same("the coefficient in its place", got, spline(te, w, {"C0": "C0", "constant": "C0"}.get(kind, "C1")))
        else:              # a cell of none of the coefficients of the range
            G["coeffs"].fact(lambda k: not_(mine(k)))
            if P.infeasible(RUN.st): raise Infeasible()
            same("zero elsewhere", c.elem(idx), R(real(0)))
    verify(res, "coefficients.SparseSHCoefficients.__call__", [("%s, time of rank %d, limits %s" % (k, r, ks), (k, r, ks)) for k, r, ks in cases], call)
def sparse(res, budget): placement(res, [(k, r, (0, 0)) for k in CLS for r in range(3)] + [("C1", 1, (1, 0)), ("C1", 0, (0, 1))])
def sparse_range(res, budget): placement(res, [("C1", 1, (1, 1))])
def sparse_range_scalar(res, budget): placement(res, [("C0", 0, (1, 1))])
def sparse_range_constant(res, budget): placement(res, [("constant", 2, (0, 1)), ("constant", 1, (1, 0))])
def sparse_range_year(res, budget): placement(res, [("year", 1, (0, 1)), ("year", 0, (1, 0))])
def sparse_sets(res, budget):
    def limits(kind):
        mod, n, t, given, kw = build(kind, True); G = RUN.ghost; w = G["w"]; vs, ve = mod.validity
        check("post", "largest degree", and_(cmp(">=", ival(mod.degree), NN(w)), or_(*[cmp("==", ival(mod.degree), NN(k)) for k in G["coeffs"].seen.values()])))
        check("post", "smallest degree", and_(cmp("<=", ival(mod.min_degree), NN(w)), or_(*[cmp("==", ival(mod.min_degree), NN(k)) for k in G["coeffs"].seen.values()])))
        if given: same("start as given", vs, kw["validity_start"]); same("end as given", ve, kw["validity_end"]); return
        if kind == "constant": check("post", "no limits", lift(vs) == -math.inf and lift(ve) == math.inf); return
        s = G["order"]; q = ivar("q"); RUN.st.assume(and_(cmp("<=", 0, q), cmp("<", q, t))); s.known(0); s.known(t - 1); s.element(q); f = (lambda x: R(app("TO_MJD", x))) if kind == "year" else R
        same("starts at the first node", vs, f(NODE(s.perm(0)))); same("ends at the last node", ve, f(NODE(s.perm(t - 1))))
        check("post", "the first node is the earliest, the last one the latest", and_(cmp("<=", NODE(s.perm(0)), NODE(q)), cmp("<=", NODE(q), NODE(s.perm(t - 1)))))
    verify(res, "coefficients.SparseSHCoefficients.__init__", [(k, (k,)) for k in CLS], limits)
    def sets(kind, ks):
        mod, n, t, given, kw = build(kind); o = options(ks); G = RUN.ghost; w = G["w"]
        out = mod.get_coefficient_sets(**o)
        if not (isinstance(out, list) and len(out) == 1 and isinstance(out[0], tuple) and len(out[0]) == 4): fail("post", "one set (times, coefficients, degrees and orders, order)", repr(out)[:80]); return
        tm, cf, nm, order = out[0]; check("post", "order of the spline", order == {"C0": 1, "constant": 1}.get(kind, 2))
        ext = cf.shape[0]; check("post", "the coefficients of the range", and_(implies(inside(ext, w), selected(w, o)), implies(selected(w, o), inside(ext, w))))
        check("post", "as many degrees and orders", sameext(nm.shape[0], ext))
        if branch(inside(ext, w)):
            e = index_in(ext, w); check("post", "degree and order", and_(cmp("==", ival(nm.elem((e, 0))), NN(w)), cmp("==", ival(nm.elem((e, 1))), MM(w)))); nodes(tm, cf, e, w, "post")
    verify(res, "coefficients.SparseSHCoefficientsTimeDependent.get_coefficient_sets", [("%s, limits %s" % (k, ks), (k, ks)) for k in CLS for ks in KINDS], sets)
