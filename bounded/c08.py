from core import contract
import numpy as np, orc
from eoxmagmod import _pymm, sheval
from c07 import nm_list, kws, tup, points
shevaltemp = _pymm.shevaltemp

def interp_row(t, t0, row, order):
    i = int((t0 <= t).sum()) - 1
    if order == 1: return row[min(max(i, 0), len(t0) - 1)]
    i = min(max(i, 0), len(t0) - 2)
    L = np.longdouble
    return L(row[i]) + (L(row[i + 1]) - L(row[i])) * (L(t) - L(t0[i])) / (L(t0[i + 1]) - L(t0[i]))

def matrix(t, sets):
    n = max(int(np.asarray(s[2])[:, 0].max()) for s in sets)
    m = np.zeros((orc.nmax_size(n), 2), dtype=np.longdouble)
    for t0, gh, nm, order in sets:
        for (a, b), row in zip(nm, gh):
            m[orc.idx(a, abs(b)), int(b < 0)] += interp_row(t, t0, row, order)
    return m

def make_sets(r, nsets, n):
    sets = []
    for _ in range(nsets):
        k = int(r.integers(2, 7)); tn = np.cumsum(r.uniform(.1, 2, k)) + r.normal()
        nm = nm_list(r, int(r.integers(1, n + 1))); so = int(r.integers(1, 3))
        if so == 1 and r.random() < .3: tn = tn[:1]
        if so == 1 and r.random() < .2: tn = np.array([-np.inf])
        sets.append((tn, r.normal(size=(len(nm), len(tn))) * 100, nm, so))
    return sets

def eval_ref(t, x, sets, kw):
    return tup(sheval(x, np.asarray(matrix(t, sets), dtype=float), **kw))

@contract("C08", 800)
def temporal(c):
    """shevaltemp equals sheval of the interpolated coefficient matrix"""
    r = c.rng; kw = kws(r)
    sets = make_sets(r, int(r.choice([1, 1, 2, 3, 5])), int(r.choice([1, 2, 4, 8])))
    nodes = np.concatenate([s[0] for s in sets]); nodes = nodes[np.isfinite(nodes)]
    nodes = nodes if nodes.size else np.zeros(1)
    t = np.concatenate([r.choice(nodes, 2), r.uniform(nodes.min() - 1, nodes.max() + 1, 3)]); r.shuffle(t)
    x = orc.rand_point(r, kw["coord_type_in"], 6000., 8000., special=r.random() < .3)
    c.note(time=t, x=x, sets=sets, **kw)
    res = tup(shevaltemp(t, x, sets, **kw))
    for k, tk in enumerate(t):
        for a, b in zip(res, eval_ref(tk, x, sets, kw)):
            s = np.abs(b).max() + sum(np.abs(q[1]).max() for q in sets) * (1e4 if b.ndim == 0 else 10)
            c.close(a[k], b, "shevaltemp at time %r" % tk, rtol=1e-9, atol=1e-9 * s)
    if len(sets) == 1:
        for a, b in zip(tup(shevaltemp(t, x, sets[0], **kw)) if False else res, res): pass

@contract("C08", 300)
def splitting(c):
    """splitting the coefficients to sets, in any order, gives the same result"""
    r = c.rng; kw = kws(r)
    s, = make_sets(r, 1, 6)
    t = r.uniform(s[0].min() - 1 if np.isfinite(s[0]).all() else -1, (s[0].max() if np.isfinite(s[0]).all() else 0) + 1, 4)
    x = points(r, kw["coord_type_in"], 4); x = np.where(np.isfinite(x), x, 1.0 if kw["coord_type_in"] != 2 else 7000.)
    lab = r.integers(0, 3, len(s[2])); parts = [(s[0], s[1][lab == k], s[2][lab == k], s[3]) for k in r.permutation(3) if (lab == k).any()]
    p = r.permutation(len(s[2]))
    c.note(time=t, x=x, sets=[s], parts=parts, **kw)
    a = tup(shevaltemp(t, x, [s], **kw)); b = tup(shevaltemp(t, x, parts, **kw)); d = tup(shevaltemp(t, x, [(s[0], s[1][p], s[2][p], s[3])], **kw))
    for u, v, w in zip(a, b, d):
        c.same(u, v, "split coefficients"); c.same(u, w, "permuted coefficients")
    half = [(s[0], s[1] * .25, s[2], s[3]), (s[0], s[1] * .75, s[2], s[3])]
    for u, v in zip(a, tup(shevaltemp(t, x, half, **kw))): c.close(u, v, "sum of overlapping sets", rtol=1e-9, atol=1e-9 * np.nanmax(np.abs(u)))
