"""Python functions: decomposition and aggregation of intervals (C14)."""
from py_pymm import *
UTIL = "eoxmagmod.magnetic_model.util"

class Item:
    """the object of the input interval of the number id"""
    def __init__(self, id): self.id = id
class Base:
    """the lists starts, ends, items at the head of a loop; facts on all elements, instantiated at the elements which are read"""
    def __init__(self, n):
        self.n = n; self.name = fresh_name("list"); self.idx = {}; self.unary = []; self.binary = []
        self.own = z3.Function(self.name + ".o", z3.IntSort(), z3.IntSort())
    def start(self, j): self.use(j); return app(self.name + ".s", j)
    def end(self, j): self.use(j); return app(self.name + ".e", j)
    def owner(self, j): self.use(j); return iz(self.own(zi(j)))
    def raw(self, j): return app(self.name + ".s", j), app(self.name + ".e", j), iz(self.own(zi(j)))
    def within(self, j): return and_(cmp("<=", 0, j), cmp("<", j, self.n))
    def say1(self, f, j): RUN.st.assume(implies(self.within(j), f(j)))
    def say2(self, f, i, j): RUN.st.assume(implies(and_(self.within(i), self.within(j), cmp("<", i, j)), f(i, j)))
    def use(self, j):
        if ikey(j) in self.idx: return
        for f in self.unary: self.say1(f, j)
        for f in self.binary:
            for i in self.idx.values(): self.say2(f, i, j); self.say2(f, j, i)
        self.idx[ikey(j)] = j
    def all1(self, f):
        self.unary.append(f)
        for j in self.idx.values(): self.say1(f, j)
    def all2(self, f):
        self.binary.append(f)
        for i in self.idx.values():
            for j in self.idx.values():
                if i is not j: self.say2(f, i, j)
class SList(SymList):
    """a list: the base list of the head of the loop and what was inserted since"""
    def __init__(self, base, get): self.base = base; self.get = get; self.ops = []; self.off = 0
    @property
    def n(self): return self.base.n + len(self.ops)
    def item(self, j):
        for idx, v in reversed(self.ops):
            if branch(cmp("<", j, idx)): continue
            if branch(cmp("==", j, idx)): return v
            j = j - 1
        return self.get(j)
    def insert(self, idx, v):
        i = ival(idx)
        if i is None or not (isinstance(idx, (int, I))): unsup("index of insert")
        if isinstance(i, int) and i < 0: unsup("negative index of insert")
        if not branch(cmp("<=", i, self.n)): i = self.n           # list.insert beyond the end appends
        if not branch(cmp("<=", 0, i)): unsup("negative index of insert")
        self.ops.append((i, v))
    def append(self, v): self.ops.append((self.n, v))
    def copy(self):
        c = SList(self.base, self.get); c.ops = list(self.ops); return c
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        unsup("list method %s" % n)
def negative(self, k):
    i = ival(k) if not isinstance(k, slice) else None
    if isinstance(i, int) and i < 0:
        if not branch(cmp("<=", -i, self.n)): raise SymIndexError("list index out of range")
        return self.item(self.n + i)
    return SymList.__getitem__(self, k)
SList.__getitem__ = negative
def lists(base): return {"starts": SList(base, lambda j: R(base.start(j))), "ends": SList(base, lambda j: R(base.end(j))), "items": SList(base, lambda j: Item(base.owner(j)))}
def slist(v):
    if isinstance(v, SList): return v
    if isinstance(v, list) and not v: return SList(Base(0), lambda j: unsup("element of an empty list"))
    unsup("not a list of the invariant")
def bisect_stub(right):
    def f(a, x, *args, **kw):
        if args or kw or not isinstance(a, SList) or a.ops: unsup("bisection of this list")
        x = rv(x).v; b = a.base; n = b.n; ref = lambda j: rv(a.get(j)).v
        def ascending():
            i, j = arbitrary("ij", n)
            check("pre", "bisection of an ascending list", cmp("<=", ref(i), ref(j)))
        aside(ascending)
        idx = fresh_int("position"); RUN.st.assume(cmp("<=", 0, idx)); RUN.st.assume(cmp("<=", idx, n))
        lo, hi = ("<=", ">") if right else ("<", ">=")
        col = 0 if ref(fresh_int("i")).a[0].endswith(".s") else 1
        term = lambda j: b.raw(j)[col]
        b.all1(lambda j: and_(implies(cmp("<", j, idx), cmp(lo, term(j), x)), implies(cmp(">=", j, idx), cmp(hi, term(j), x))))
        b.use(idx); b.use(idx - 1)
        return I(idx)
    return f
STUBS["bisect"] = stub("bisect", bisect_right=bisect_stub(True), bisect=bisect_stub(True), bisect_left=bisect_stub(False))
REAL.discard("bisect")

class OverlapInv(Inv):
    """the lists are ascending disjoint intervals; the instant x is covered if and only if its owner was processed, by an interval with its object"""
    names = ("starts", "ends", "items")
    def __init__(self, inner): self.inner = inner; self.names = OverlapInv.names + (("start", "end") if inner else ())
    def covered(self, loc, k):
        w, x = RUN.ghost["w"], RUN.ghost["x"]
        if w is None: return False
        if not self.inner: return cmp("<", w, k)
        return or_(cmp("<", w, RUN.ghost["k"]), and_(cmp("==", w, RUN.ghost["k"]), cmp("<", x, rv(loc["start"]).v)))
    def havoc(self, L, loc, k):
        G = RUN.ghost; x = G["x"]; n = fresh_int("intervals"); RUN.st.assume(cmp(">=", n, 0)); b = Base(n); L.bufs = []; out = lists(b)
        if self.inner:
            out["start"] = R(fresh_real("start")); s = out["start"].v
            RUN.st.assume(cmp("<=", app("START", G["k"]), s))
            pos = G["pos"] = fresh_int("pos"); RUN.st.assume(cmp("<=", 0, pos)); RUN.st.assume(cmp("<=", pos, n)); G["base"] = b
            b.all1(lambda j, s=s: and_(implies(cmp("<", j, pos), cmp("<=", b.raw(j)[1], s)), implies(cmp(">=", j, pos), cmp(">", b.raw(j)[1], s))))
        else:
            G["k"] = k; self.known(L, loc, k)
        b.all1(lambda j: cmp("<", b.raw(j)[0], b.raw(j)[1])); b.all2(lambda i, j: cmp("<=", b.raw(i)[1], b.raw(j)[0]))
        b.J = None; G["last"] = b
        if branch(self.covered({**loc, **out}, k)):
            J = b.J = fresh_int("J"); RUN.st.assume(b.within(J)); s, e, o = b.raw(J)
            for c in (cmp("<=", s, x), cmp("<", x, e), cmp("==", o, G["w"])): RUN.st.assume(c)
            b.use(J)
        else: b.all1(lambda j: not_(and_(cmp("<=", b.raw(j)[0], x), cmp("<", x, b.raw(j)[1]))))
        if self.inner: b.use(pos); b.use(pos - 1)
        return out
    def known(self, L, loc, k):
        w = RUN.ghost["w"]; c = RUN.ghost["contains"](k)
        RUN.st.assume(implies(cmp("<", k, L.seq.n), not_(c)) if w is None else implies(cmp("<", k, w), not_(c)))
    def check(self, L, loc, k, when):
        G = RUN.ghost; lab = "invariant %s (%s, %s): " % (when, L.key[0].rpartition(".")[2], "inner loop" if self.inner else "outer loop")
        s, e, o = [slist(loc[n]) for n in OverlapInv.names]
        if not self.inner and L.k is None: G["w0"] = G["w"]
        intervals_hold("inv", lab, s, e, o, self.covered(loc, k))
        if self.inner:
            check("inv", lab + "start does not go back", cmp("<=", app("START", G["k"]), rv(loc["start"]).v))
            check("inv", lab + "end is kept", cmp("==", app("END", G["k"]), rv(loc["end"]).v))
            if L.k is not None:
                b = G["base"]; grown = e.n - b.n; j = G["pos"] + grown
                check("measure", "fewer intervals end after the start", and_(cmp("<=", 0, j), cmp("<", j, e.n)))
                if branch(and_(cmp("<=", 0, j), cmp("<", j, e.n))): check("measure", "the start passes the end of the interval", cmp("<=", rv(e.item(j)).v, rv(loc["start"]).v))
def intervals_hold(kind, lab, s, e, o, covered):
    """the lists s, e, o: ascending, disjoint, positive lengths; x is within one of them if and only if covered, and then with its owner"""
    G = RUN.ghost; x = G["x"]; n = e.n
    check(kind, lab + "one start, end and object each", and_(cmp("==", s.n, n), cmp("==", o.n, n)))
    def length():
        j, = arbitrary("j", n)
        check(kind, lab + "positive length", cmp("<", rv(s.item(j)).v, rv(e.item(j)).v))
    def order():
        i, j = arbitrary("ij", n)
        check(kind, lab + "ascending and disjoint", cmp("<=", rv(e.item(i)).v, rv(s.item(j)).v))
    def instant():
        if branch(covered):
            cand = []; J = getattr(s.base, "J", None)
            for idx, _ in e.ops:
                cand = [q + 1 if branch(cmp("<=", idx, q)) else q for q in cand] + [idx]
                if J is not None and branch(cmp("<=", idx, J)): J = J + 1
            if J is not None: cand.append(J)
            check(kind, lab + "an interval with the instant, of its owner", or_(*[and_(cmp("<=", rv(s.item(q)).v, x), cmp("<", x, rv(e.item(q)).v), cmp("==", o.item(q).id, G["w"])) for q in cand]))
        else:
            j, = arbitrary("j", n)
            check(kind, lab + "no interval with the instant", not_(and_(cmp("<=", rv(s.item(j)).v, x), cmp("<", x, rv(e.item(j)).v))))
    for f in (length, order, instant): aside(f)
def arbitrary(names, n):
    """indices within a list of n elements, ascending"""
    js = [fresh_int(c) for c in names]
    for a, b in zip(js, js[1:]): RUN.st.assume(cmp("<", a, b))
    RUN.st.assume(cmp("<=", 0, js[0])); RUN.st.assume(cmp("<", js[-1], n))
    if P.infeasible(RUN.st): raise Infeasible()
    return js
NON = UTIL + ".get_nonoverlapping_intervals"
INV[(NON, 0)] = OverlapInv(False)
INV[(NON, 1)] = OverlapInv(True)
def nonoverlapping(res, budget):
    """ascending disjoint intervals; the instant x is within one of them if and only if some input contains it, and then it has the first one's object"""
    def body():
        m = load(UTIL); G = RUN.ghost; n = ivar("inputs"); RUN.st.assume(cmp(">=", n, 0)); x = G["x"] = rvar("x")
        item = lambda k: ((R(app("START", k)), R(app("END", k))), Item(k))
        contains = G["contains"] = lambda k: and_(cmp("<=", app("START", k), x), cmp("<", x, app("END", k)))
        w = G["w"] = None
        if choose(): w = G["w"] = ivar("first"); RUN.st.assume(and_(cmp("<=", 0, w), cmp("<", w, n), contains(w)))
        out = m.get_nonoverlapping_intervals(SymList(n, item))
        if not isinstance(out, SymList): unsup("result of another kind")
        class View:
            ops = []
            def __init__(self, f): self.n = out.n; self.item = lambda j: f(shape(out.item(j))); self.base = G["last"]
        def shape(t):
            if not ok(t): fail("post", "elements ((start, end), object)", repr(t)[:100]); raise Cut()
            return t
        ok = lambda t: isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple) and len(t[0]) == 2 and isinstance(t[1], Item)
        intervals_hold("post", "", View(lambda t: t[0][0]), View(lambda t: t[0][1]), View(lambda t: t[1]), w is not None)
    verify(res, "util.get_nonoverlapping_intervals", [("", ())], body)

# ---------------------------------------------------------------- aggregation
def o(op, a, b): return tob(opx(op, a, b))
def omax(a, b): return a if branch(o(">=", a, b)) else b
class Side:
    """one of the aggregated lists: ascending, disjoint"""
    def __init__(self, name, n, labels):
        self.n = n; self.b = Base(n); self.memo = {}; self.labels = labels; self.name = name; b = self.b
        b.all1(lambda j: cmp("<=", b.raw(j)[0], b.raw(j)[1])); b.all2(lambda i, j: cmp("<=", b.raw(i)[1], b.raw(j)[0]))
        self.list = SymList(n, self.item)
    def item(self, k):
        if ikey(k) not in self.memo: self.memo[ikey(k)] = ((R(self.b.start(k)), R(self.b.end(k))), self.labels(k))
        return self.memo[ikey(k)]
class Default:
    def __init__(self, l): self.n = 1; self.list = None; self.l = l
    def item(self, k): return self.l[0]
class Pairs(Inv):
    """the positions p, q of the current intervals; the pair (a, b) of intersecting intervals is in the result if and only if a < p or b < q"""
    names = ("result", "it_aggregates", "it_intervals0", "start1", "end1", "items", "start0", "end0", "item")
    def current(self, loc): return loc["it_aggregates"].pos - 1, loc["it_intervals0"].pos - 1
    def check(self, L, loc, k, when):
        G = RUN.ghost; lab = "invariant %s (aggregate_intersected_intervals): " % when
        i1, i0 = loc["it_aggregates"], loc["it_intervals0"]
        if not isinstance(i1, SymIter) or not isinstance(i0, SymIter): unsup("iterators of another kind")
        if G["one"] is None: G["one"] = Default(i1.seq.l)
        p, q = self.current(loc); one, two = G["one"], G["two"]
        check("inv", lab + "positions", and_(cmp("<=", 0, p), cmp("<", p, one.n), cmp("<=", 0, q), cmp("<", q, two.n)))
        (s1, e1), l1 = one.item(p); (s0, e0), l0 = two.item(q)
        for n, v in (("start1", s1), ("end1", e1), ("start0", s0), ("end0", e0)): same(lab + n, loc[n], v, "inv")
        check("inv", lab + "objects", loc["items"] is l1 and loc["item"] is l0)
        if L.k is None: check("inv", lab + "empty result", isinstance(loc["result"], list) and not loc["result"]); last = None
        else: last = added(lab, loc["result"])
        if L.k is None: check("inv", lab + "nothing is before the first intervals", and_(cmp("==", p, 0), cmp("==", q, 0)))
        else:
            check("measure", "an interval is passed", cmp("<", G["p"] + G["q"], p + q))
            check("inv", lab + "the pair is in the result if and only if it was passed, once", count_is(loc["result"], or_(cmp("<", G["a"], p), cmp("<", G["b"], q))))
            if last is not None: check("inv", lab + "the last end is before the next start", or_(o("<=", last, s1), o("<=", last, s0)))
    def havoc(self, L, loc, k):
        G = RUN.ghost; L.bufs = []
        p, q = G["p"], G["q"] = fresh_int("p"), fresh_int("q")
        for c in (cmp("<=", 0, p), cmp("<", p, G["one"].n), cmp("<=", 0, q), cmp("<", q, G["two"].n)): RUN.st.assume(c)
        i1, i0 = loc["it_aggregates"], loc["it_intervals0"]; i1.pos = p + 1; i0.pos = q + 1
        (s1, e1), l1 = G["one"].item(p); (s0, e0), l0 = G["two"].item(q)
        r = G["result"] = Result(); last = G["last"] = R(fresh_real("last"))
        RUN.st.assume(or_(o("<=", last, s1), o("<=", last, s0)))
        return {"result": r, "it_aggregates": i1, "it_intervals0": i0, "start1": s1, "end1": e1, "items": l1, "start0": s0, "end0": e0, "item": l0}
class Result:
    """the result at the head of the loop (its last interval ends at last) and what was appended since"""
    def __init__(self): self.new = []
    def append(self, x): self.new.append(x)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        unsup("list method %s" % n)
def added(lab, r):
    """what is appended: the intersection of the current intervals with both objects; returns the end of the last one"""
    G = RUN.ghost
    if r is not G.get("result"): unsup("another list")
    (s1, e1), l1 = G["one"].item(G["p"]); (s0, e0), l0 = G["two"].item(G["q"]); last = G["last"]
    for x in r.new:
        ok = isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[1], list)
        if not ok: fail("inv", lab + "elements ((start, end), [objects])", repr(x)[:100]); raise Cut()
        (s, e), l = x
        check("inv", lab + "objects of both intervals in order", len(l) == len(l1) + 1 and all(u is v for u, v in zip(l, l1)) and l[-1] is l0)
        same(lab + "start of the intersection", s, omax(s1, s0), "inv"); same(lab + "end of the intersection", e, e1 if branch(o("<=", e1, e0)) else e0, "inv")
        check("inv", lab + "not empty", o("<=", s, e)); check("inv", lab + "ascending", o("<=", last, s)); last = e
    return last
def count_is(r, passed):
    """the number of the occurrences of the pair (a, b) is 1 if passed, 0 otherwise"""
    G = RUN.ghost; before = or_(cmp("<", G["a"], G["p"]), cmp("<", G["b"], G["q"])); m = len(r.new)
    now = and_(cmp("==", G["a"], G["p"]), cmp("==", G["b"], G["q"]))
    if m > 1: return not_(now)
    c = or_(before, now) if m else before
    return and_(implies(c, passed), implies(passed, c))
INV[(UTIL + ".aggregate_intersected_intervals", 0)] = Pairs()
def aggregation(res, budget):
    """every pair of intervals with an intersection of positive length is in the result once, nothing else but intersections, in ascending order"""
    def body(default):
        m = load(UTIL); G = RUN.ghost; n1, n0 = ivar("n1"), ivar("n0"); RUN.st.assume(cmp(">=", n1, 0)); RUN.st.assume(cmp(">=", n0, 0))
        two = G["two"] = Side("intervals", n0, lambda k: Item(k))
        one = G["one"] = None if default else Side("aggregates", n1, lambda k: [Tok("objects", real(k))])
        a, b = G["a"], G["b"] = 0 if default else ivar("a"), ivar("b"); RUN.st.assume(and_(cmp("<=", 0, b), cmp("<", b, n0)))
        (sb, eb), _ = two.item(b)
        if not default:
            RUN.st.assume(and_(cmp("<=", 0, a), cmp("<", a, n1))); (sa, ea), _ = one.item(a)
            for u, v in ((sa, eb), (sb, ea), (sa, ea)): RUN.st.assume(o("<", u, v))
        RUN.st.assume(o("<", sb, eb))
        out = m.aggregate_intersected_intervals(two.list) if default else m.aggregate_intersected_intervals(two.list, one.list)
        if isinstance(out, list) and not out: check("post", "empty only if there is no pair", P.infeasible(RUN.st)); return
        added("at the end: ", out)
        check("post", "the pair is in the result, once", count_is(out, True))
    verify(res, "util.aggregate_intersected_intervals", [("", (False,)), ("default", (True,))], body)
