"""Python functions: the composed model (C17)."""
from py_model import *
COMP = "eoxmagmod.magnetic_model.model_composed"
class Member:
    def __init__(self, k): self.k = k
    def eval(self, time, location, input_coordinate_system=SPH, output_coordinate_system=SPH, **options):
        return evaluate(app("member", real(self.k)), rvar("member"), time, location, input_coordinate_system, output_coordinate_system, options)
class SumInv(Inv):
    """the sum of the fields of the members before"""
    names = ("result",)
    def arrays(self, L, loc, k):
        G = RUN.ghost; g = RUN.gen[:G["rank"]]
        if isinstance(k, int) and k == 0: f = lambda c: R(real(0))
        elif isinstance(k, int) and k == 1: f = lambda c: G["member"](0)[c]
        elif L.k is not None and k is not L.k: f = lambda c: op1("+", partial_sum(L.k)[c], G["member"](L.k)[c])
        else: f = lambda c: partial_sum(k)[c]
        return {"result": (g, f)}
def partial_sum(k): return [R(app("SUM%d" % c, k), boolapp("nan SUM%d" % c, [k])) for c in range(3)]
for _n in (0, 1): INV[(COMP + ".ComposedGeomagneticModel.eval", _n)] = SumInv()
def composed(res, budget):
    def body(rt, rc, cin, cout, scaled, empty_):
        m = load(COMP); t, x, shape, g, pairs = inputs(rt, rc)
        mod = m.ComposedGeomagneticModel()
        n = 0 if empty_ else ivar("members"); memo = {}
        if not empty_: RUN.st.assume(cmp(">=", n, 1))
        def params(k):
            if ikey(k) not in memo:
                some = rt == rc == 1 and cin == SPH      # members with and without parameters of their own
                memo[ikey(k)] = ({"p": Tok("own p", real(k))} if not some or choose(boolapp("own p", [k])) else {}) | ({"q": Tok("own q", real(k))} if not some or choose(boolapp("own q", [k])) else {})
            return dict(memo[ikey(k)])
        item = lambda k: (Member(k), R(app("SCALE", k)), params(k))
        mod._components = [] if empty_ else SymList(n, item)
        o = {"p": Tok("option p"), "r": Tok("option r")}
        te, p = t.elem(g[:rt]), comps(x.snap(), g[:rc]); s = conv(cin, SPH, p)
        def member(k):
            a = dict(o); a.update(params(k)); a["scale"] = R(app("SCALE", k))
            return [field("EV", c, [te], s, [app("member", real(k)), rvar("member"), real(SPH), real(SPH), okey(a)]) for c in range(3)]
        RUN.ghost["rank"] = len(g); RUN.ghost["member"] = member
        kw_ = dict(o)
        if scaled: kw_["scale"] = R(rvar("scale"))
        out = accepted(lambda: mod.eval(t, x, cin, cout, **kw_), pairs)
        w = [R(real(0), te.n)] * 3 if empty_ else partial_sum(n)
        if cout == GEOD: w = rot("sph2geod", w, op1("-", (p if cin == GEOD else conv(SPH, GEOD, s))[0], s[0]))
        elif cout == CART: w = rot("sph2cart", w, s[0], s[1])
        if scaled: w = [op1("*", k, R(rvar("scale"))) for k in w]
        same3("sum of the members with their scales and parameters in the output frame, scaled", out, w, g, shape)
    verify(res, "model_composed.ComposedGeomagneticModel.eval", [("%s, time of rank %d, locations of rank %d, %d to %d, scale %d" % ("empty" if e else "members", a, b, c, d, s), (a, b, c, d, s, e))
           for e in (0, 1) for a, b in CASES for c, d, s in [(c, d, (c + d) % 2) for c in range(3) for d in range(3)] + [(1, 1, 1)]], body)
    def push(kind):
        m = load(COMP); mod = m.ComposedGeomagneticModel()
        check("post", "an empty composition has no limits", mod.validity[0] == -math.inf and mod.validity[1] == math.inf)
        check("post", "the parameters always needed", set(mod.parameters) == {"time", "location"})
        inf = math.inf
        old = {"none": (-inf, inf), "both": (R(rvar("start")), R(rvar("end"))), "start": (R(rvar("start")), inf), "end": (-inf, R(rvar("end"))), "empty": (-inf, -inf)}[kind[0]]
        new = {"both": (R(rvar("start1")), R(rvar("end1"))), "start": (R(rvar("start1")), inf), "end": (-inf, R(rvar("end1"))), "none": (-inf, inf)}[kind[1]]
        if kind[0] == "both": RUN.st.assume(cmp("<=", old[0].v, old[1].v))
        if kind[1] == "both": RUN.st.assume(cmp("<=", new[0].v, new[1].v))
        mod._validity = old
        mod._parameters = {"time", "location", "a"}
        class M: validity = new; parameters = ("location", "time", "b", "a", "c")
        mod._components = prev = ["first"]
        one = M(); sc = R(rvar("scale")); tok = Tok("own")
        if kind[2]: mod.push(one, scale=sc, p=tok)
        else: mod.push(one)
        t = R(rvar("t")); inside = lambda v: and_(tob(op1("<=", v[0], t)), tob(op1("<=", t, v[1])))
        a, b = inside(mod.validity), and_(inside(old), inside(new))
        check("post", "valid exactly where it was and the new member is", and_(implies(a, b), implies(b, a)))
        check("post", "the parameters are the union", set(mod.parameters) == {"time", "location", "a", "b", "c"})
        c = mod._components
        check("post", "the member is the last one", len(c) == 2 and c[0] == "first" and c[1][0] is one and c[1][2] == ({"p": tok} if kind[2] else {}))
        same("its scale", c[1][1], sc if kind[2] else 1.0)
    verify(res, "model_composed.ComposedGeomagneticModel.push", [("%s and %s, %d" % (a, b, k), ((a, b, k),)) for a in ("none", "both", "start", "end", "empty") for b in ("both", "start", "end", "none") for k in (0, 1)], push)
