from core import contract
import numpy as np, orc
from eoxmagmod.magnetic_model import coefficients as K
from eoxmagmod import decimal_year_to_mjd2000 as d2m, mjd2000_to_decimal_year as m2d
T, C0, DY = K.SparseSHCoefficientsTimeDependent, K.SparseSHCoefficientsConstant, K.SparseSHCoefficientsTimeDependentDecimalYear

def rand_nm(r, n, nmin=1):
    a = [(i, j) for i in range(nmin, n + 1) for j in range(-i, i + 1)]
    k = int(r.integers(1, len(a) + 1)); p = r.permutation(len(a))[:k]
    return np.array([a[q] for q in p])

def piecewise(t, tn, row, order):
    i = int((tn <= t).sum()) - 1
    if order == 1: return row[min(max(i, 0), len(tn) - 1)]
    i = min(max(i, 0), len(tn) - 2)
    return row[i] + (row[i + 1] - row[i]) * (t - tn[i]) / (tn[i + 1] - tn[i])

class Ref:
    """a coefficient set with its definition"""
    def __init__(self, r, kind=None, internal=True, span=(-3000., 3000.), validity=True):
        self.kind = kind = kind or str(r.choice(["T", "T1", "C", "DY"]))
        self.nm = rand_nm(r, int(r.integers(2, 7)), int(r.integers(1, 3)))
        if r.random() < .15: self.nm = rand_nm(r, 1)
        n = len(self.nm); kw = {"is_internal": internal}
        self.internal = internal
        if kind == "C":
            self.tn = np.array([-np.inf]); self.cf = r.normal(size=(n, 1)) * 100
            v = sorted(r.uniform(*span, 2)) if validity and r.random() < .4 else None
            if v: kw.update(validity_start=v[0], validity_end=v[1])
            self.obj = C0(self.nm, self.cf[:, 0], **kw)
            self.validity = tuple(v) if v else (-np.inf, np.inf); self.order = 1; self.conv = lambda t: t
            return
        k = int(r.integers(2, 6)); self.order = 1 if kind == "T1" else 2
        if kind == "T1" and r.random() < .2: k = 1
        tn = np.sort(r.choice(np.arange(span[0], span[1], 10.), k, replace=False))
        if kind == "DY": tn = np.array([float(m2d(q)) for q in tn])
        self.tn = tn; self.cf = r.normal(size=(n, k)) * 100
        p = r.permutation(k)
        if validity and r.random() < .3:
            a, b = sorted(r.uniform(tn[0] - 3, tn[-1] + 3, 2)); kw.update(validity_start=a, validity_end=b)
        v = (kw.get("validity_start", tn[0]), kw.get("validity_end", tn[-1]))
        self.obj = (DY if kind == "DY" else T)(self.nm, self.cf[:, p], tn[p], **({} if kind == "DY" and r.random() < .5 else {"spline_order": self.order}), **kw)
        self.conv = (lambda t: m2d(t)) if kind == "DY" else (lambda t: t)
        self.validity = (float(d2m(v[0])), float(d2m(v[1]))) if kind == "DY" else v
    def degrange(self): return int(self.nm[:, 0].min()), int(self.nm[:, 0].max())
    def at(self, t, size, lo=-1, hi=-1):
        m = np.zeros((size, 2)); u = float(self.conv(t))
        for (n, k), row in zip(self.nm, self.cf):
            if (lo < 0 or n >= lo) and (hi < 0 or n <= hi): m[orc.idx(n, abs(k)), int(k < 0)] = piecewise(u, self.tn, row, self.order)
        return m
    def maxdeg(self, lo, hi):
        d = [n for n in self.nm[:, 0] if (lo < 0 or n >= lo) and (hi < 0 or n <= hi)]
        return int(max(d)) if d else 0
    def note(self): return dict(kind=self.kind, nm=self.nm, tn=self.tn, cf=self.cf, validity=self.validity)

def degs(r):
    return {k: int(v) for k, v in (("min_degree", r.integers(-1, 6)), ("max_degree", r.integers(-1, 8))) if r.random() < .6}
def times(r, refs, n=6):
    b = [v for s in refs for v in s.validity if np.isfinite(v)] + [0.]
    t = np.concatenate([r.uniform(min(b) - 500, max(b) + 500, n - 2), r.uniform(min(b), max(b) + 1, 2)])
    return t

@contract("C15", 800)
def placement(c):
    """placement, subsetting, order of the time nodes, declared degree and validity"""
    r = c.rng; s = Ref(r); o = s.obj; kw = degs(r); c.note(opt=kw, **s.note())
    lo, hi = kw.get("min_degree", -1), kw.get("max_degree", -1)
    c.require((o.min_degree, o.degree) == s.degrange(), "declared degrees", res=(o.min_degree, o.degree))
    c.close(np.array(o.validity, dtype=float), s.validity, "validity", rtol=0, atol=1e-6)
    c.require(o.is_internal is True, "source kind")
    t = times(r, [s]); md = s.maxdeg(lo, hi); size = orc.nmax_size(md)
    m, d = o(t, **kw)
    c.require(d == md, "degree %r expected %r" % (d, md))
    want = np.array([s.at(q, size, lo, hi) for q in t])
    c.close(m, want, "coefficients", rtol=1e-9, atol=1e-5)
    nz = np.array([s.at(0., size, lo, hi) for q in t]) != 0
    c.require(((m != 0) <= nz).all(), "misplaced coefficient", res=m)
    for q, w in zip(t, m):
        g, e = o(float(q), **kw); c.require(e == d, "degree of a scalar"); c.same(g, w, "scalar")
    t2 = t.reshape(2, 3); c.same(o(t2, **kw)[0], m.reshape(2, 3, -1, 2), "2D times")
    c.require(list(map(bool, o.is_valid(t))) == [bool(s.validity[0] <= q <= s.validity[1]) for q in t], "is_valid")
    tt = np.array([x for x in s.validity if np.isfinite(x)])
    if tt.size and s.kind != "DY": c.require(o.is_valid(tt).all(), "validity bounds included")

@contract("C15", 800)
def composed(c):
    """the first listed member valid at the time (the first if none); properties follow from the members"""
    r = c.rng; refs = [Ref(r) for _ in range(int(r.integers(2, 5)))]; kw = degs(r)
    c.note(opt=kw, members=[s.note() for s in refs])
    lo, hi = kw.get("min_degree", -1), kw.get("max_degree", -1)
    e = None; gap = False
    for a, b in sorted(tuple(map(float, s.obj.validity)) for s in refs):
        if e is not None and a > e: gap = True
        e = b if e is None else max(e, b)
    if gap:
        c.raises(lambda: K.ComposedSHCoefficients(*[s.obj for s in refs]), "time gap accepted", exc=ValueError); return
    o = K.ComposedSHCoefficients(*[s.obj for s in refs])
    c.require((o.min_degree, o.degree) == (min(s.degrange()[0] for s in refs), max(s.degrange()[1] for s in refs)), "degrees")
    c.same(np.array(o.validity, dtype=float), [min(s.obj.validity[0] for s in refs), max(s.obj.validity[1] for s in refs)], "validity")
    t = times(r, refs, 8); v = [s.obj.validity for s in refs]
    m, d = o(t, **kw); c.require(m.shape == (8, orc.nmax_size(d), 2), "shape", res=m.shape)
    for q, w in zip(t, m):
        k = next((i for i, (a, b) in enumerate(v) if a <= q <= b), 0)
        g, e = refs[k].obj(q, **kw); c.same(w[:len(g)], g, "member %d at %r" % (k, q)); c.require(not w[len(g):].any(), "non-zero tail")
        g2, e2 = o(q, **kw); c.same(g2, g, "scalar"); c.require(e2 == e, "scalar degree")
    c.same(o(t.reshape(4, 2), **kw)[0], m.reshape(4, 2, -1, 2), "2D times")
    c.require(set(o.time_scales) == {x for s in refs for x in s.obj.time_scales}, "time scales")

@contract("C15", 600)
def combined(c):
    """the sum of the members; nesting; mixed kinds rejected"""
    r = c.rng; refs = [Ref(r) for _ in range(int(r.integers(2, 5)))]; kw = degs(r)
    c.note(opt=kw, members=[s.note() for s in refs])
    lo, hi = kw.get("min_degree", -1), kw.get("max_degree", -1)
    o = K.CombinedSHCoefficients(*[s.obj for s in refs])
    if c.i % 3 == 0: o = K.CombinedSHCoefficients(K.CombinedSHCoefficients(refs[0].obj), K.CombinedSHCoefficients(*[s.obj for s in refs[1:]]))
    c.require((o.min_degree, o.degree) == (min(s.degrange()[0] for s in refs), max(s.degrange()[1] for s in refs)), "degrees")
    c.same(np.array(o.validity, dtype=float), [max(s.obj.validity[0] for s in refs), min(s.obj.validity[1] for s in refs)], "validity")
    t = times(r, refs); m, d = o(t, **kw)
    c.require(d == max(s.maxdeg(lo, hi) for s in refs), "degree", res=d)
    size = orc.nmax_size(d)
    c.close(m, np.array([sum(s.at(q, size, lo, hi) for s in refs) for q in t]), "sum of the members", rtol=1e-9, atol=1e-5)
    for q, w in zip(t, m): c.same(o(q, **kw)[0], w, "scalar")
    c.require(set(o.time_scales) == {x for s in refs for x in s.obj.time_scales}, "time scales")
    ext = Ref(r, internal=False)
    c.require(ext.obj.is_internal is False, "source kind")
    c.raises(lambda: K.CombinedSHCoefficients(refs[0].obj, ext.obj), "mixed kinds", exc=ValueError)
    x, y = Ref(r, "C", validity=False), Ref(r, "C", internal=False, validity=False)
    c.raises(lambda: K.ComposedSHCoefficients(x.obj, y.obj), "mixed kinds", exc=ValueError)
    for k in (K.ComposedSHCoefficients, K.CombinedSHCoefficients):
        c.raises(lambda: k(), "empty", exc=ValueError); c.require(k(x.obj) is x.obj, "single item")

@contract("C15", 600)
def decomposition(c):
    """decomposition covers the validity and preserves the values off the interval bounds"""
    r = c.rng
    def tree(depth):
        k = int(r.integers(0, 3)) if depth else 0
        if k == 0: s = Ref(r, str(r.choice(["T", "T1", "C"]))); return s.obj
        its = [tree(depth - 1) for _ in range(int(r.integers(2, 4)))]
        try: return (K.ComposedSHCoefficients if k == 1 else K.CombinedSHCoefficients)(*its)
        except ValueError: return its[0]
    o = tree(2); parts = o.decompose()
    b = sorted({x for (s, e), _ in parts for x in (s, e) if np.isfinite(x)} | {x for x in o.validity if np.isfinite(x)})
    c.note(validity=o.validity, parts=[v for v, _ in parts])
    t = np.array(([b[0] - 1] + [(p + q) / 2 for p, q in zip(b, b[1:])] + [b[-1] + 1]) if b else [0.])
    for q in t:
        own = [x for (s, e), x in parts if s <= q <= e]
        valid = lambda z: z.validity[0] <= q <= z.validity[1]
        if isinstance(o, K.ComposedSHCoefficients):
            # some member defined at that time
            c.require(len(own) <= 1, "overlapping parts")
        c.require(bool(own) == bool(o.is_valid(q)), "coverage of the validity at %r" % q)
        if own:
            g, _ = o(q); h, _ = own[0](q); k = min(len(g), len(h))
            c.close(h[:k], g[:k], "value at %r" % q, rtol=1e-12, atol=1e-9); c.require(not g[k:].any() and not h[k:].any(), "tail")
            c.require(bool(o.is_valid(q)), "part outside of the validity")
    if not isinstance(o, (K.ComposedSHCoefficients, K.CombinedSHCoefficients)): c.require(parts == [(o.validity, o)], "leaf")
