"""Python functions: composed and combined coefficient sets (C15)."""
from py_lines import *
from py_model import *
COEFF = "eoxmagmod.magnetic_model.coefficients"
def csz(d):
    """contract of util.coeff_size (verified as its own function): at least one, ascending"""
    d = ival(d); memo = RUN.ghost.setdefault("csz", {}); k = ikey(d); r = app_int("CSZ", d)
    if k not in memo:
        for e, s in memo.values():
            RUN.st.assume(implies(cmp("<=", d, e), cmp("<=", r, s))); RUN.st.assume(implies(cmp("<=", e, d), cmp("<=", s, r)))
        RUN.st.assume(cmp(">=", r, 1)); memo[k] = (d, r)
    return I(r)
_fi = {}
def app_int(name, *k):
    if (name, len(k)) not in _fi: _fi[name, len(k)] = z3.Function(name, *([z3.IntSort()] * (len(k) + 1)))
    return iz(_fi[name, len(k)](*[zi(i) for i in k]))
START = lambda k: app("START", k); END = lambda k: app("END", k); DEG = lambda k: app_int("DEG", k); MIN = lambda k: app_int("MIN", k); CDEG = lambda k: app_int("CDEG", k); KIND = lambda k: boolapp("KIND", [k])
def valid(k, t):
    """the member k is valid at the instant t"""
    t = lift(t); return and_(not_(t.n), cmp("<=", START(k), t.v), cmp("<=", t.v, END(k)))
def module():
    m = load(COEFF); m.coeff_size = csz; return m
def entry(k, t, i, j): return R(app("COEF", real(k), t.v, real(i), real(j)), t.n)
def canon(k):
    """the number of the member: the one it is known to be equal to"""
    w = RUN.ghost.get("w")
    return w if w is not None and k is not w and P.decide(RUN.st, cmp("==", k, w)) is True else k
def member(m, k):
    class Mem(m.SHCoefficients):
        """the member k: any coefficient set with its validity, kind, degrees; a call gives, for each time, a matrix which depends on that time alone"""
        degree = I(DEG(k)); min_degree = I(MIN(k))
        def __init__(self): self.number = k; self.is_internal = B(KIND(k)); self.validity = (R(START(k)), R(END(k)))
        def __call__(self, time, **parameters):
            check("post", "the parameters are given to the members", okey(parameters) == okey(RUN.ghost["parameters"]))
            k = canon(self.number); t = asarray(time); f = t.snap(); r = t.ndim
            RUN.st.assume(cmp(">=", CDEG(k), 0))
            return A(lambda idx: entry(k, rv(f(idx[:r])), idx[-2], idx[-1]), (*t.shape, csz(I(CDEG(k))), 2)), I(CDEG(k))
    return Mem()
class Results(Seq):
    """the list of the results at the head of a loop and what was appended since"""
def rows(label, got, want, idx):
    """the element idx of two matrices of the same shape"""
    got = asarray(got)
    if same_shape(label + ": shape", got, want.shape): same(label, got.elem(idx), want.elem(idx), "inv")
def degree_facts(d, k):
    """d is not negative, at least the degree of the arbitrary member before k, the degree of a member or 0"""
    G = RUN.ghost; p = G["p"]
    return [("degree at least that of the member", implies(cmp("<", p, k), cmp(">=", ival(d), CDEG(p)))), ("degree not negative", cmp(">=", ival(d), 0))]
class Gather(Inv):
    """the results of the members before, in order; their largest degree"""
    names = ("results", "degree")
    def made(self, j, t): return self.m(j)(t, **RUN.ghost["parameters"])[0]
    def check(self, L, loc, k, when):
        G = RUN.ghost; lab = "invariant %s (%s): " % (when, L.key[0].rpartition(".")[2]); d = loc["degree"]; r = loc["results"]
        for n, c in degree_facts(d, k): check("inv", lab + n, c)
        if L.k is None:
            check("inv", lab + "no results", isinstance(r, list) and not r); check("inv", lab + "degree 0", cmp("==", ival(d), 0))
        else:
            if r is not G["results"] or len(r.new) != 1: fail("inv", lab + "one result of each member", repr(r)[:80]); raise Cut()
            check("inv", lab + "the degree of a member or 0", or_(cmp("==", ival(d), 0), *[and_(cmp("<=", 0, w), cmp("<", w, k), cmp("==", ival(d), CDEG(w))) for w in (G["w degree"], L.k)]))
            self.added(lab, r.new[0], L.k)
        self.more(lab, L, loc, k)
    def more(self, lab, L, loc, k): pass
    def havoc(self, L, loc, k):
        G = RUN.ghost; L.bufs = []; d = I(fresh_int("degree")); G["degree"] = d
        w = G["w degree"] = fresh_int("w")
        RUN.st.assume(or_(cmp("==", ival(d), 0), and_(cmp("<=", 0, w), cmp("<", w, k), cmp("==", ival(d), CDEG(w)))))
        for n, c in degree_facts(d, k): RUN.st.assume(c)
        def item(j):
            RUN.st.assume(implies(cmp("<", j, k), cmp(">=", ival(d), CDEG(j)))); return self.entry(j)
        r = G["results"] = Results(k, item)
        return {"results": r, "degree": d} | self.rest(L, loc, k)
    def rest(self, L, loc, k): return {}
class GatherAll(Gather):
    default = "matrix"
    def part(self, what, j):
        G = RUN.ghost
        if what == "member": return member(G["m"], j)
        if what == "degree": return I(CDEG(j))
        if what == "matrix": return member(G["m"], j)(G["time"], **G["parameters"])[0]
        unsup("results of another kind")
    def kind(self, x): return "member" if hasattr(type(x), "_get_converted_validity") else "degree" if isinstance(x, I) else "mask" if isinstance(x, A) and x.kind == "b" else "matrix" if isinstance(x, A) else "other"
    def form(self, L): return LEARN.get((L.key, "form"), self.default)
    def entry(self, j):
        """the result of the member j, in the form of the results of the code"""
        f = self.form(self.L); memo = {}
        def one(w):
            if w not in memo: memo[w] = self.part(w, j)
            return memo[w]
        return tuple(one(w) for w in f) if isinstance(f, tuple) else one(f)
    def rest(self, L, loc, k): self.L = L; return {}
    def added(self, lab, x, k):
        f = tuple(self.kind(v) for v in x) if isinstance(x, (tuple, list)) else self.kind(x)
        if f != self.form(self.L): learn((self.L.key, "form"), f); unsup("results of another form")
        vs = dict(zip(f, x)) if isinstance(f, tuple) else {f: x}
        if isinstance(f, tuple) and len(vs) != len(f): unsup("results of another form")
        for w, v in vs.items(): self.compare(lab, w, v, k, vs)
    def compare(self, lab, w, v, k, vs):
        if w == "degree": check("inv", lab + "the degree of the member", cmp("==", ival(v), CDEG(k)))
        elif w == "member": check("inv", lab + "the member", cmp("==", v.number, k))
        else: rows(lab + "the coefficients of the member", v, self.part("matrix", k), RUN.ghost["at"])
def total(k): return R(app("SUM", k), boolapp("nan SUM", [k]))
def term(k):
    G = RUN.ghost; *g, i, j = G["at"]
    if branch(cmp("<", i, ival(csz(I(CDEG(k)))))): return entry(k, G["te"], i, j)
    return None
class Summed(Inv):
    """the sum of the coefficients of the members before"""
    names = ("coeff",)
    def arrays(self, L, loc, k):
        g = RUN.ghost["at"]
        if isinstance(k, int) and k == 0: f = lambda: R(real(0))
        elif L.k is not None and k is not L.k:
            def f():
                t = term(L.k); return total(L.k) if t is None else op1("+", total(L.k), t)
        else: f = lambda: total(k)
        return {"coeff": (g, f)}
    def known(self, L, loc, k):
        RUN.st.assume(cmp("<", RUN.ghost["at"][-2], ival(csz(RUN.ghost["degree"])))); RUN.st.assume(implies(cmp("==", k, 0), and_(cmp("==", total(0).v, 0), not_(total(0).n))))
INV[(COEFF + ".CombinedSHCoefficients.__call__", 0)] = GatherAll()
INV[(COEFF + ".CombinedSHCoefficients.__call__", 1)] = Summed()
def times(rt):
    if rt == 0: t = arr("time", (), True); return t, (), ()
    shape, g = extents(rt); return arr("time", shape, True), shape, g
def matrix_case(rt):
    m = module(); G = RUN.ghost; G["m"] = m; G["parameters"] = {"max_degree": Tok("max_degree"), "a": Tok("a")}
    t, shape, g = times(rt); n = ivar("members"); RUN.st.assume(cmp(">=", n, 2)); G["n"] = n; G["time"] = t; G["te"] = rv(t.elem(g))
    p = G["p"] = ivar("p"); RUN.st.assume(and_(cmp("<=", 0, p), cmp("<", p, n), cmp(">=", CDEG(p), 0)))
    i, j = ivar("i"), 0 if choose() else 1
    RUN.st.assume(cmp("<=", 0, i)); G["at"] = (*g, i, j); RUN.gen = list(g) + [i]
    return m, t, shape, g, n
def largest(out_degree, n):
    G = RUN.ghost; d = ival(out_degree)
    check("post", "the degree is at least that of each member", cmp(">=", d, CDEG(G["p"])))
    w = G.get("w degree"); check("post", "the degree is that of a member", or_(cmp("==", d, CDEG(G["p"])), cmp("==", d, CDEG(0)), and_(cmp("<=", 0, w), cmp("<", w, n), cmp("==", d, CDEG(w)))))
def combined(res, budget):
    """combined set: the sum of the matrices of all members, each in its place; the largest degree"""
    def body(rt):
        m, t, shape, g, n = matrix_case(rt); G = RUN.ghost
        mod = object.__new__(m.CombinedSHCoefficients); mod._items = SymList(n, lambda k: member(m, k))
        c, d = mod(t, **G["parameters"]); largest(d, n)
        if same_shape("shape of the matrix", c, (*shape, csz(d), 2)):
            RUN.st.assume(cmp("<", G["at"][-2], ival(csz(d)))); same("the sum of the members", c.elem(G["at"]), total(n))
    verify(res, "coefficients.CombinedSHCoefficients.__call__", [("time of rank %d" % r, (r,)) for r in range(3)], body)

# ---------------------------------------------------------------- composition
def first(n):
    """the first member valid at the instant of the arbitrary element, or none"""
    G = RUN.ghost; G["w"] = None
    if choose(): w = G["w"] = ivar("first"); RUN.st.assume(and_(cmp("<=", 0, w), cmp("<", w, n), valid(w, G["te"])))
def not_before(k):
    """definition of the first valid member"""
    G = RUN.ghost; w = G["w"]; c = not_(valid(k, G["te"]))
    RUN.st.assume(implies(cmp("<", k, G["n"] if w is None else w), c))
class GatherMasked(GatherAll):
    """the masks and the coefficients of the times of the members before; the times left: those without a valid member before"""
    names = ("results", "degree", "mask")
    default = ("mask", "matrix")
    def mask(self, f): return A(f, RUN.ghost["time"].shape, "b")
    def here(self, idx): return tuple(ikey(i) for i in flat(idx)) == tuple(ikey(i) for i in RUN.ghost["at"][:-2])
    def selected(self, j): return False if RUN.ghost["w"] is None else cmp("==", j, RUN.ghost["w"])
    def part(self, what, j):
        G = RUN.ghost; nm = G.setdefault("masks", fresh_name("mask"))
        mk = self.mask(lambda idx: mkb(self.selected(j)) if self.here(idx) else B(boolapp(nm, [j, *flat(idx)])))
        if what == "mask": return mk
        if what == "matrix": return member(G["m"], j)(G["time"][mk], **G["parameters"])[0]
        return GatherAll.part(self, what, j)
    def compare(self, lab, w, v, k, vs):
        G = RUN.ghost; g = G["at"][:-2]
        if w == "mask": same(lab + "the times of the member", asarray(v).elem(g), mkb(self.selected(k)), "inv")
        elif w != "matrix": GatherAll.compare(self, lab, w, v, k, vs)
        else:
            if "mask" not in vs: unsup("results without masks")
            want = member(G["m"], k)(G["time"][vs["mask"]], **G["parameters"])[0]
            if same_shape(lab + "the coefficients of the member: shape", v, want.shape): same(lab + "the coefficients of the member", asarray(v).elem((tuple(g), *G["at"][-2:])), want.elem((tuple(g), *G["at"][-2:])), "inv")
    def left(self, k): return True if RUN.ghost["w"] is None else cmp("<=", k, RUN.ghost["w"])
    def more(self, lab, L, loc, k):
        G = RUN.ghost
        if L.k is None: not_before(0)
        same(lab + "the times left", asarray(loc["mask"]).elem(G["at"][:-2]), mkb(self.left(k)), "inv")
    def rest(self, L, loc, k):
        self.L = L; not_before(k); G = RUN.ghost; a = loc["mask"]; c = self.left(k); nm = fresh_name("left")
        if not isinstance(a, A) or a.imap is not None or a.buf.readonly: unsup("mask is not an array of its own")
        a.buf.f = lambda idx: mkb(c) if self.here(idx) else B(boolapp(nm, list(flat(idx)))); L.bufs.append(a.buf)
        return {"mask": a}
class Merged(Inv):
    """the times of the results before have their coefficients, the others zeros"""
    names = ("coeff",)
    def arrays(self, L, loc, k):
        G = RUN.ghost; w = G["n"] if G["w"] is None else G["w"]; done = cmp("<", w, k)
        return {"coeff": (G["at"], lambda: wanted() if branch(done) else R(real(0)))}
    def known(self, L, loc, k): RUN.st.assume(cmp("<", RUN.ghost["at"][-2], ival(csz(RUN.ghost["d"](loc)))))
def wanted():
    """the coefficient of the first valid member, of the first member if there is none"""
    G = RUN.ghost; *g, i, j = G["at"]; w = 0 if G["w"] is None else G["w"]
    return entry(w, G["te"], i, j) if branch(cmp("<", i, ival(csz(I(CDEG(w)))))) else R(real(0))
MULTI = COEFF + ".ComposedSHCoefficients._get_coeff_multi_time"
INV[(MULTI, 0)] = GatherMasked()
INV[(MULTI, 1)] = Merged()
class Search(Inv):
    """no member before is valid"""
    def facts(self, L, loc, k): return [("no member before is valid", True if RUN.ghost["w"] is None else cmp("<=", k, RUN.ghost["w"]))]
    def known(self, L, loc, k): not_before(k)
INV[(COEFF + ".ComposedSHCoefficients._get_coeff_single_time", 0)] = Search()
def composed_call(res, budget):
    """composed set: the matrix of the first valid member at each time, of the first member if there is none"""
    def body(rt):
        m, t, shape, g, n = matrix_case(rt); G = RUN.ghost; first(n); G["d"] = lambda loc: loc["degree"]
        mod = object.__new__(m.ComposedSHCoefficients); mod._items = SymList(n, lambda k: member(m, k))
        c, d = mod(t, **G["parameters"])
        if rt: largest(d, n)
        else: check("post", "the degree of the member", cmp("==", ival(d), CDEG(0 if G["w"] is None else G["w"])))
        if same_shape("shape of the matrix", c, (*shape, csz(d), 2)):
            RUN.st.assume(cmp("<", G["at"][-2], ival(csz(d)))); same("the first valid member", c.elem(G["at"]), wanted())
    verify(res, "coefficients.ComposedSHCoefficients.__call__", [("time of rank %d" % r, (r,)) for r in range(3)], body)
# ---------------------------------------------------------------- construction
class Sorted(SymList):
    """contract of the built-in sorted: a permutation, ascending by the key"""
    def __init__(self, seq, key):
        nm = fresh_name("perm"); self.perm = lambda j: app_int(nm, j); self.pos = lambda w: app_int(nm + " pos", w); self.src = seq; self.key = key; self.seen = {}; self.off = 0; self.n = seq.n
        self.item = self.at; RUN.ghost["sorted"] = self
    def known(self, j):
        """facts of the position j: an element, in order with the positions read before"""
        if ikey(j) in self.seen: return
        w = self.perm(j); inside = and_(cmp("<=", 0, j), cmp("<", j, self.n))
        RUN.st.assume(implies(inside, and_(cmp("<=", 0, w), cmp("<", w, self.n), cmp("==", self.pos(w), j))))
        kj = self.keys(w)
        for i, ki in self.seen.values():
            both = and_(inside, cmp("<=", 0, i), cmp("<", i, self.n))
            RUN.st.assume(implies(and_(both, cmp("<", i, j)), lex(ki, kj))); RUN.st.assume(implies(and_(both, cmp("<", j, i)), lex(kj, ki)))
        self.seen[ikey(j)] = (j, kj)
    def element(self, w):
        """facts of the element w: it is at its position"""
        q = self.pos(w); inside = and_(cmp("<=", 0, w), cmp("<", w, self.n))
        RUN.st.assume(implies(inside, and_(cmp("<=", 0, q), cmp("<", q, self.n), cmp("==", self.perm(q), w)))); self.known(q); return q
    def keys(self, w):
        k = self.key(self.src.item(w)) if self.key else self.src.item(w)
        return [rv(x).v for x in (k if isinstance(k, (tuple, list)) else [k])]
    def at(self, j): self.known(j); return self.src.item(self.perm(j))
def lex(a, b):
    c = cmp("<=", a[-1], b[-1])
    for x, y in list(zip(a, b))[-2::-1]: c = or_(cmp("<", x, y), and_(cmp("==", x, y), c))
    return c
def sym_sorted(x, key=None, reverse=False):
    if not isinstance(x, SymList): return sorted(x, key=key, reverse=reverse)
    if reverse or x.off: unsup("sorted of this sequence")
    return Sorted(x, key)
BUILTINS["sorted"] = sym_sorted
class Fold(Inv):
    """the limits, the degrees and the kind of the members before"""
    names = ("validity_start", "validity_end", "degree", "min_degree")
    def __init__(self, meet): self.meet = meet
    def number(self, L, j): return L.seq.perm(j) if isinstance(L.seq, Sorted) else j
    def position(self, L, w): return L.seq.element(w) if isinstance(L.seq, Sorted) else w
    def bounds(self, loc, k, q):
        """facts of the arbitrary member p, at the position q, if it was before"""
        p = RUN.ghost["p"]; vs, ve = rv(loc["validity_start"]).v, rv(loc["validity_end"]).v; b = cmp("<", q, k)
        a, z = (">=", "<=") if self.meet else ("<=", ">=")
        return [("start", implies(b, cmp(a, vs, START(p)))), ("end", implies(b, cmp(z, ve, END(p)))), ("degree", implies(b, cmp(">=", ival(loc["degree"]), DEG(p)))),
                ("minimum degree", implies(b, cmp("<=", ival(loc["min_degree"]), MIN(p)))), ("kind", implies(b, eqb(KIND(p), KIND(0))))]
    def witnesses(self, loc): return {"start": (rv(loc["validity_start"]).v, START), "end": (rv(loc["validity_end"]).v, END), "degree": (ival(loc["degree"]), DEG), "min": (ival(loc["min_degree"]), MIN)}
    def among(self, c, k):
        """a member before; before the first one of the combined sets: the first one"""
        return and_(cmp("<=", 0, c), or_(cmp("<", c, k), cmp("==", c, 0)) if self.meet else cmp("<", c, k))
    def check(self, L, loc, k, when):
        G = RUN.ghost; lab = "invariant %s (%s): " % (when, L.key[0]); s = L.seq
        if L.k is None and not self.meet: return       # the first iteration starts from these values
        if self.unset(loc): fail("inv", lab + "values of the members", ""); raise Cut()
        cand = [0] if L.k is None else [G["wit"], L.k]
        for n, (v, f) in self.witnesses(loc).items():
            cs = cand if L.k is None else [x for x in [G["wit"].get(n), L.k] if x is not None]
            check("inv", lab + "the %s of a member" % n, or_(*[and_(self.among(c, k), cmp("==", v, f(self.number(L, c)))) for c in cs]))
        for n, c in self.bounds(loc, k, self.position(L, G["p"])): check("inv", lab + "bound: " + n, c)
        if not self.meet:
            x = G["x"]; vs, ve = rv(loc["validity_start"]).v, rv(loc["validity_end"]).v
            cs = [c for c in (G["wit"].get("cover"), L.k) if c is not None]
            check("inv", lab + "no gap", implies(and_(cmp("<=", vs, x), cmp("<=", x, ve)), or_(*[and_(self.among(c, k), covers(self.number(L, c), x)) for c in cs])))
    def unset(self, loc): return any(isinstance(loc[n], float) for n in self.names)
    def havoc(self, L, loc, k):
        G = RUN.ghost; L.bufs = []; G["wit"] = {}; G["loop"] = L
        if not self.meet and branch(cmp("==", k, 0)): return {n: loc[n] for n in self.names}
        out = {"validity_start": R(fresh_real("vs")), "validity_end": R(fresh_real("ve")), "degree": I(fresh_int("degree")), "min_degree": I(fresh_int("min"))}
        for n, (v, f) in self.witnesses(out).items():
            c = G["wit"][n] = fresh_int("w " + n); RUN.st.assume(self.among(c, k)); L.seq.item(c); RUN.st.assume(cmp("==", v, f(self.number(L, c))))
        for n, c in self.bounds(out, k, self.position(L, G["p"])): RUN.st.assume(c)
        if not self.meet:
            x = G["x"]; c = G["wit"]["cover"] = fresh_int("cover"); L.seq.item(c); G["ve"] = out["validity_end"].v
            RUN.st.assume(implies(and_(cmp("<=", rv(out["validity_start"]).v, x), cmp("<=", x, G["ve"])), and_(self.among(c, k), covers(self.number(L, c), x))))
        G["out"] = out
        return out
def eqb(a, b): return and_(implies(a, b), implies(b, a))
def covers(w, x): return and_(cmp("<=", START(w), x), cmp("<=", x, END(w)))
COMPOSED, COMBINED = COEFF + ".ComposedSHCoefficients.__init__", COEFF + ".CombinedSHCoefficients.__init__"
INV[(COMPOSED, 0)] = Fold(False)
INV[(COMBINED, 0)] = Fold(True)
def construction(res, budget):
    """limits, degrees and kind of composed and combined sets; gaps and mixed kinds rejected, nothing else"""
    def body(meet):
        m = module(); G = RUN.ghost; n = ivar("members"); RUN.st.assume(cmp(">=", n, 0))
        p, x = G["p"], G["x"] = ivar("p"), rvar("x"); RUN.st.assume(and_(cmp("<=", 0, p), cmp("<", p, n)) if branch(cmp(">=", n, 1)) else True)
        made = {}
        def item(k):
            RUN.st.assume(and_(cmp("<=", START(k), END(k)), cmp(">=", DEG(k), 0), cmp(">=", MIN(k), 0)))
            if ikey(k) not in made: made[ikey(k)] = member(m, k)
            return made[ikey(k)]
        item(p); seq = SymList(n, item); cls = m.CombinedSHCoefficients if meet else m.ComposedSHCoefficients
        try: out = cls(VarArgs(seq))
        except ValueError:
            if branch(cmp("==", n, 0)): check("post", "no members rejected", True); return
            rejected(meet, n); return
        if branch(cmp("==", n, 0)): fail("post", "no members rejected", ""); return
        if branch(cmp("==", n, 1)): check("post", "one member is the set itself", out is item(0)); return
        check("post", "of the class", type(out) is cls)
        vs, ve = [rv(v) for v in out.validity]; inside = and_(cmp("<=", vs.v, x), cmp("<=", x, ve.v)); check("post", "limits are numbers", and_(not_(vs.n), not_(ve.n)))
        W = {n_: G["loop"].seq.perm(c) if isinstance(G["loop"].seq, Sorted) else c for n_, c in G["wit"].items()}; some = lambda f, c: or_(and_(cmp("<=", 0, c), cmp("<", c, n), f(c)), f(0), f(p))
        if meet:
            check("post", "valid only where each member is", implies(inside, covers(p, x)))
            check("post", "valid where all members are", implies(and_(*[covers(W[w], x) for w in ("start", "end")]), inside) )
        else:
            check("post", "valid where a member is", implies(covers(p, x), inside))
            check("post", "valid only where a member is", implies(inside, some(lambda c: covers(c, x), W["cover"])))
            for n_, v, f in (("start", vs.v, START), ("end", ve.v, END)): check("post", "%s of a member" % n_, some(lambda c: cmp("==", v, f(c)), W[n_]))
        check("post", "largest degree", and_(cmp(">=", ival(out.degree), DEG(p)), some(lambda c: cmp("==", ival(out.degree), DEG(c)), W["degree"])))
        check("post", "smallest degree", and_(cmp("<=", ival(out.min_degree), MIN(p)), some(lambda c: cmp("==", ival(out.min_degree), MIN(c)), W["min"])))
        check("post", "kind of each member", eqb(tob(out.is_internal), KIND(p)))
        k = fresh_int("k"); RUN.st.assume(and_(cmp("<=", 0, k), cmp("<", k, n))); its = out._items
        ok = isinstance(its, SymList) and P.decide(RUN.st, cmp("==", ival(its.symlen()), n)) is True
        check("post", "all members, in the order they are listed", ok and its[mki(k)] is item(k))
    def rejected(meet, n):
        """kinds differ, or the instant x is after the end of a member, before the start of another, within none"""
        G = RUN.ghost; L = G["loop"]; k = L.k; p = G["p"]; w = L.seq.perm(k) if isinstance(L.seq, Sorted) else k
        mixed = not_(eqb(KIND(w), KIND(0)))
        if meet: check("post", "rejected only if kinds are mixed", mixed); return
        if branch(mixed): check("post", "rejected only if kinds are mixed or there is a gap", True); return
        if "cover" not in G["wit"]: fail("post", "rejected only if kinds are mixed or there is a gap", ""); return
        y = fresh_real("y"); ve = G["ve"]; RUN.st.assume(and_(cmp("<", ve, y), cmp("<", y, START(w)))) if branch(cmp("<", ve, START(w))) else fail("post", "rejected only if kinds are mixed or there is a gap", "")
        check("post", "an end before the gap", cmp("<", END(L.seq.perm(G["wit"]["end"])), y)); check("post", "no member in the gap", not_(covers(p, y)))
    verify(res, "coefficients.ComposedSHCoefficients.__init__", [("", (False,))], body)
    verify(res, "coefficients.CombinedSHCoefficients.__init__", [("", (True,))], body)
def size(res, budget):
    """the number of the coefficients up to a degree; ascending"""
    def body():
        m = load("eoxmagmod.magnetic_model.util"); a, e = ivar("a"), ivar("e"); RUN.st.assume(and_(cmp("<=", 0, a), cmp("<=", 0, e))); b = a + e; RUN.st.assume(cmp("<=", b, 46339))
        s, t = ival(m.coeff_size(I(a))), ival(m.coeff_size(I(b)))
        check("post", "(d + 1)(d + 2)/2", cmp("==", s, TRI(a + 1)))
        for n in (a, b): RUN.st.assume(cmp("==", 2 * TRI(n), n * (n + 1)))      # the definition of the triangular numbers
        check("post", "at least one", cmp(">=", s, 1)); check("post", "ascending", cmp("<=", s, t))
    verify(res, "util.coeff_size", [("", ())], body)
