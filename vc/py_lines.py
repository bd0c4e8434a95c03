"""Python functions: tracing of the field lines (C20)."""
from py_model import *
LINES = "eoxmagmod.magnetic_model.field_lines"
SIGN = {}           # chain -> direction of its steps (found where its iteration is executed; the same on all paths of the case)
_pure = {}
def pure(f):
    """a formula on integers only"""
    k = f.get_id()
    if k not in _pure:
        _pure[k] = (not (z3.is_expr(f) and f.sort() == z3.RealSort()) and all(pure(c) for c in f.children()), f)
    return _pure[k][0]
_ib = {}
def ibranch(c):
    """branch on a condition on integers: first by the integer part of the path condition"""
    if isinstance(c, bool): return c
    ps = [p for p in RUN.st.pc if pure(p)]; k = (frozenset(p.get_id() for p in ps), c.get_id())
    if k not in _ib: _ib[k] = (True if P.entails(ps, c, 3000) else False if P.entails(ps, not_(c), 3000) else None, c, ps)
    return branch(c) if _ib[k][0] is None else _ib[k][0]
class Seq:
    """a list: n elements given by item, then those appended since"""
    def __init__(self, n, item, new=()): self.n = n; self.item = item; self.new = list(new)
    def total(self): return self.n + len(self.new)
    def at(self, j):
        if not ibranch(and_(cmp("<=", 0, j), cmp("<", j, self.total()))): raise SymIndexError("list index out of range")
        if ibranch(cmp("<", j, self.n)): return self.item(j)
        for q, v in enumerate(self.new):
            if ibranch(cmp("==", j, self.n + q)): return v
        raise Infeasible()
    def append(self, x): self.new.append(x)
    def copy(self): return Seq(self.n, self.item, self.new)
    def take(self, n, f): return Seq(n, f)
    def reverse(self):
        old = self.copy(); n = self.total(); self.n = n; self.new = []; self.item = lambda j: old.at(n - 1 - j)
    def __reversed__(self): unsup("reversed of a symbolic list")
    def symlist(self):
        old = self.copy(); return SymList(self.total(), old.at)
    def symlen(self): return mki(self.total())
    def __getitem__(self, k):
        n = self.total(); old = self.copy()
        if not isinstance(k, slice):
            j = ival(k); return self.at(n + j if isinstance(j, int) and j < 0 else j)
        step = 1 if k.step is None else k.step
        if step not in (1, -1) or not all(isinstance(x, (int, type(None))) for x in (k.start, k.stop)): unsup("slice of a symbolic list")
        def pos(x, lo, hi):
            p = x if x >= 0 else n + x
            return lo if ibranch(cmp("<", p, lo)) else hi if ibranch(cmp(">", p, hi)) else p
        if step == 1: a = pos(k.start, 0, n) if k.start is not None else 0; b = pos(k.stop, 0, n) if k.stop is not None else n
        else: a = pos(k.start, -1, n - 1) if k.start is not None else n - 1; b = pos(k.stop, -1, n - 1) if k.stop is not None else -1
        m = b - a if step == 1 else a - b
        return Seq(m if ibranch(cmp(">", m, 0)) else 0, lambda j: old.at(a + step * j))
    def __add__(self, o): return join(self, o)
    def __radd__(self, o): return join(o, self)
    def __array_sym__(self):
        old = self.copy()
        def f(idx):
            v = old.at(idx[0]); return lift(v[idx[1]])
        return A(f, (mki(self.total()), 3))
    def __iter__(self): unsup("iteration over a symbolic list")
def join(a, b):
    a, b = [x.copy() if isinstance(x, Seq) else Seq(0, None, x) for x in (a, b)]
    n = a.total(); return Seq(n + b.total(), lambda j: a.at(j) if ibranch(cmp("<", j, n)) else b.at(j - n))
def spec():
    """the point of the chain q after j steps (the start after none); the next point in the direction s; the limits"""
    G = RUN.ghost
    def P_(q, j): return [R(app("P%d %d" % (q, c), j)) for c in range(3)]
    def step(p, s):
        v = G["field"](p); b = R(app("SQRT", v[0].v * v[0].v + v[1].v * v[1].v + v[2].v * v[2].v))
        if not branch(cmp(">", b.v, 0)): return p
        f = op1("/", op1("*", op1("*", G["step"], s), norm(p)), op1("*", G["radius"], b))
        return [op1("+", x, op1("*", f, y)) for x, y in zip(p, v)]
    return P_, step
def norm(p): return R(app("SQRT", p[0].v * p[0].v + p[1].v * p[1].v + p[2].v * p[2].v))
def beyond(p):
    r = norm(p); return or_(tob(op1("<=", r, RUN.ghost["min"])), tob(op1(">=", r, RUN.ghost["max"])))
def three(v):
    if isinstance(v, A): return [lift(v.elem((c,))) for c in range(3)] if v.ndim == 1 and v.shape[0] == 3 else None
    return [lift(x) for x in v] if isinstance(v, (tuple, list)) and len(v) == 3 else None
def equal3(label, kind, got, want):
    got = three(got)
    if got is None: fail(kind, label, "not a vector"); return
    for c in range(3): same("%s, component %d" % (label, c), got[c], want[c], kind)
def direction(q, old, p):
    """the direction of the steps of the chain: that of its first step seen"""
    p = three(p); key = q; both = [(s, spec()[1](old, s)) for s in (1, -1)]       # the same decisions whether it is known or not
    if key not in SIGN and p is not None:
        ok = [s for s, w in both if all(P.decide(RUN.st, cmp("==", x.v, y.v)) is True for x, y in zip(p, w))]
        if len(ok) == 1: SIGN[key] = ok[0]
    return direction_of(q)
def direction_of(q):
    s = SIGN.get(q), SIGN.get(1 - q)
    return s[0] or (-s[1] if s[1] else 1 - 2 * q)
def ended(r):
    """the lists returned for a side"""
    G = RUN.ghost; L = G["of"]; q = L.chain; P_, step = spec()
    pts, vec = r; lab = "side: "
    ok = isinstance(pts, Seq) and isinstance(vec, Seq) and pts.n is L.pts.n and vec.n is L.vec.n and len(pts.new) in (0, 1) and len(vec.new) == len(pts.new) + 1
    check("post", lab + "a field for every point", ok)
    if not ok: raise Cut()
    k = L.k; old = P_(q, k)
    if pts.new:
        s = direction(q, old, pts.new[0]); last = step(old, s); K = k + 1
        equal3(lab + "last point: a step %s the field" % ("along" if s > 0 else "against"), "post", pts.new[0], last)
        equal3(lab + "field of the point before", "post", vec.new[0], G["field"](old))
    else: last, K = old, k
    equal3(lab + "field of the last point", "post", vec.new[-1], G["field"](last))
    check("post", lab + "not more than the maximal number of steps", or_(cmp("==", K, 0), cmp("<=", K, G["max_steps"])))
    check("post", lab + "ends beyond the limits or after the maximal number of steps", or_(cmp(">=", K, G["max_steps"]), and_(cmp(">", K, 0), beyond(last))))
def side(call, args):
    """the contract of a side: its body is checked against it on one path, it is assumed on the other"""
    G = RUN.ghost
    G["given"] = G.get("used", []); G["used"] = G["given"] + [x.buf for x in args if isinstance(x, A)]
    if G["verify"] and choose():
        ended(call()); raise Cut()
    q = G["chains"]; G["chains"] += 1; K = fresh_int("steps"); P_ = spec()[0]
    RUN.st.assume(cmp(">=", K, 0)); G["ends"].append({"q": q, "n": K, "at": lambda j: P_(q, j)})
    return Seq(K + 1, lambda j: tuple(P_(q, j))), Seq(K + 1, lambda j: tuple(G["field"](P_(q, j))))
class LineInv(Inv):
    """k steps made: points 0..k, the fields of the points 0..k-1, the last point; none after the start is beyond the limits"""
    names = ("points", "vectors", "point")
    def check(self, L, loc, k, when):
        G = RUN.ghost; P_, step = spec(); lab = "invariant %s: " % when
        pts, vec, p = (loc[n] for n in self.names)
        if L.k is None:
            L.entry = p.buf if isinstance(p, A) else None
            q = L.chain = G["chains"]; G["chains"] += 1; G["of"] = L
            check("inv", lab + "the start alone", isinstance(pts, list) and len(pts) == 1 and isinstance(vec, list) and not vec)
            if isinstance(pts, list) and len(pts) == 1: equal3(lab + "first point", "inv", pts[0], G["start"])
            equal3(lab + "start", "inv", p, G["start"])
        else:
            q = L.chain
            ok = isinstance(pts, Seq) and isinstance(vec, Seq) and pts.n is L.pts.n and vec.n is L.vec.n and len(pts.new) == len(vec.new) == 1
            check("inv", lab + "one point and one field more", ok)
            if not ok: return
            if isinstance(p, A) and p.buf is L.buf and L.buf in RUN.writes: check("frame", "the start point is kept for the other side", not any(L.entry is b for b in G["given"]))
            old = P_(q, L.k); s = direction(q, old, pts.new[0]); w = step(old, s)
            equal3(lab + "next point: a step %s the field" % ("along" if s > 0 else "against"), "inv", pts.new[0], w)
            equal3(lab + "current point", "inv", p, w)
            equal3(lab + "field of the point", "inv", vec.new[0], G["field"](old))
            check("inv", lab + "not beyond the limits", not_(beyond(w)))
    def havoc(self, L, loc, k):
        P_, step = spec(); q = L.chain; G = RUN.ghost
        L.pts = Seq(k + 1, lambda j: tuple(P_(q, j))); L.vec = Seq(k, lambda j: tuple(G["field"](P_(q, j))))
        here = P_(q, k); a = A(lambda idx: here[idx[0]], (3,), label="point"); L.buf = a.buf; L.bufs = [a.buf]
        return {"points": L.pts, "vectors": L.vec, "point": a}
INV[(LINES + "._trace_field_line", 0)] = LineInv()
def tracing(res, cases):
    def body(cin, cout, given, mo, sides):
        m = load(LINES); G = RUN.ghost; G["chains"] = 0; G["ends"] = []; G["verify"] = sides
        if not hasattr(m, "_traced_"):
            m._traced_ = m._trace_field_line; m._trace_field_line = lambda *a, **k: side(lambda: m._traced_(*a, **k), a + tuple(k.values()))
        x = points("x", (), False); t = R(rvar("t")); p0 = comps(x.snap(), ()); start = G["start"] = conv(cin, CART, p0)
        num = {k: R(rvar(k)) for k in ("step", "min_radius", "max_radius")}
        to = None; n = 500
        G["step"], G["min"], G["max"], G["radius"] = R(real(100)), R(real(Fraction("0.9977") * Fraction("6371.2"))), R(real(Fraction("1e6") * Fraction("6371.2"))), R(real(Fraction("6371.2")))
        if given:
            n = ivar("max_steps"); to = {"max_steps": I(n), **num}; G["step"], G["min"], G["max"] = (num[k] for k in ("step", "min_radius", "max_radius"))
        o = None
        G["max_steps"] = n
        if mo:
            o = {"max_degree": Tok("max_degree")}
            if mo == 2: o["radius"] = G["radius"] = R(rvar("radius")); RUN.st.assume(cmp(">", rvar("radius"), 0))
        seen = {k: v for k, v in (o or {}).items() if k != "radius"}; tok = Tok("model")
        class Model:
            def eval(self, time, location, input_coordinate_system=SPH, output_coordinate_system=SPH, **options):
                return evaluate(tok.v, tok, time, location, input_coordinate_system, output_coordinate_system, options)
        G["field"] = lambda p: [field("EV", c, [t], p, [tok.v, tok.v, real(CART), real(CART), okey(seen)]) for c in range(3)]
        kept = dict(to or {}), dict(o or {})
        kw = {}
        if to is not None: kw["trace_options"] = to
        if o is not None: kw["model_options"] = o
        co, fi = m.trace_field_line(Model(), t, x, cin, cout, **kw)
        check("frame", "the options of the caller are kept", (to or {}) == kept[0] and (o or {}) == kept[1])
        co, fi = asarray(co), asarray(fi); chains = G["ends"]
        if len(chains) != 2: fail("post", "two sides", "%d" % len(chains)); return
        s = [direction_of(q) for q in (0, 1)]
        check("post", "one side along the field, one against it", s[0] == -s[1])
        down, up = (chains[s.index(d)] for d in (1, -1)) if s[0] == -s[1] else chains
        K = down["n"], up["n"]
        for k in K:
            if ibranch(cmp("==", k, 0)): RUN.st.assume(cmp("==", k, 0))
        same_shape("number of the points", co, (mki(K[0] + K[1] + 1), 3)); same_shape("number of the fields", fi, (mki(K[0] + K[1] + 1), 3))
        for c in range(3): same("the start point is on the line, component %d" % c, co.elem((K[1], c)), conv(CART, cout, [R(app("P%d %d" % (down["q"], c), 0)) for c in range(3)])[c])
        i = ivar("i0"); RUN.st.assume(cmp("<=", 0, i)); RUN.st.assume(cmp("<", i, K[0] + K[1] + 1)); RUN.gen = [i]
        if ibranch(cmp("<", i, K[1])): p = up["at"](K[1] - i); lab = "point against the field"
        else: p = down["at"](i - K[1]); lab = "point along the field"
        w = conv(CART, cout, p); v = G["field"](p)
        if cout != CART: v = rot("cart2sph", v, w[0], w[1])
        for c in range(3):
            same("%s, component %d" % (lab, c), co.elem((i, c)), w[c]); same("field of the %s, component %d" % (lab, c), fi.elem((i, c)), v[c])
    SIGN.clear()
    verify(res, "field_lines.trace_field_line", [("%d to %d, trace options %d, model options %d%s" % (a + (", sides" if b else "",)), a + (b,)) for a, b in cases], body)
def lines(res, budget): tracing(res, [((SPH, SPH, 1, 2), 1)] + [((c, d, 1, 2), 0) for c in range(3) for d in range(3)])
def lines_defaults(res, budget): tracing(res, [((SPH, SPH, 0, 0), 1)])
def lines_model_options(res, budget): tracing(res, [((GEOD, CART, 0, 1), 1)])
def lines_trace_options(res, budget): tracing(res, [((CART, SPH, 1, 0), 1)])
