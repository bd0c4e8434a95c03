from core import contract
import numpy as np, orc
from eoxmagmod import _pymm
from eoxmagmod import sheval, convert, vrot_sph2geod, vrot_sph2cart, vrot_cart2sph
shevaltemp, sheval2dfs, interp, fourier2d = _pymm.shevaltemp, _pymm.sheval2dfs, _pymm.interp, _pymm.fourier2d

def pool(r, k, specials=()):
    return np.array(list(r.choice(specials, k)) if specials else [])

def points(r, ct, num):
    """points with many coincident coordinates, so that the caches of the last coordinate are exercised"""
    a = [orc.rand_point(r, orc.SPH, 6000., 9000.) for _ in range(3)]
    lats, lons, rads = zip(*a)
    lats += (-lats[0], 90.0); lons += (lons[0] + 360,); rads += (rads[0],)
    out = np.array([[r.choice(lats), r.choice(lons), r.choice(rads)] for _ in range(num)])
    if r.random() < .15: out[int(r.integers(num))] = out[0]
    if r.random() < .1: out[int(r.integers(num)), int(r.integers(3))] = np.nan
    if ct == orc.GEOD: out[:, 2] -= 6371.2
    if ct == orc.CART: out = np.array([np.asarray(orc.sph_to_cart(*p), dtype=float) if np.isfinite(p).all() else p for p in out])
    return out

def shapes(i): return [(6,), (2, 3), (1, 6), (3, 2, 1), (6, 1)][i % 5]
def tup(x): return x if isinstance(x, tuple) else (x,)
def kws(r):
    return dict(coord_type_in=int(r.integers(3)), coord_type_out=int(r.integers(3)), mode=int(r.integers(1, 4)), is_internal=bool(r.integers(2)),
                scale_potential=float(r.normal()), scale_gradient=r.normal(size=3))

def nm_list(r, n):
    nm = [(a, b) for a in range(1, n + 1) for b in range(-a, a + 1)]
    keep = sorted(r.choice(len(nm), int(r.integers(1, len(nm) + 1)), replace=False))
    r.shuffle(keep)
    return np.array([nm[k] for k in keep], dtype=np.int32)

@contract("C07", 400)
def sheval_batch(c):
    """sheval of arrays of points and coefficients, bit for bit"""
    r = c.rng
    kw = kws(r); sh = shapes(c.i); n = int(r.choice([0, 1, 3, 7, 17]))
    x = points(r, kw["coord_type_in"], 6).reshape((*sh, 3))
    which = int(r.integers(4))
    coef = orc.rand_coef(r, n, 3)
    if which == 1: coef = np.array([orc.rand_coef(r, n, 3) for _ in range(6)]).reshape((*sh, *coef.shape))
    elif which == 2: coef = np.array([orc.rand_coef(r, n, 3) for _ in range(sh[0])])       # leading dimensions
    elif which == 3:
        coef = np.array([orc.rand_coef(r, n, 3) for _ in range(6)]).reshape((*sh, *coef.shape)); x = x[0] if len(sh) == 1 else x[(slice(None),) + (0,) * (len(sh) - 1)]
    c.note(arr_x=x, coef=coef, **kw)
    x0, c0 = x.copy(), coef.copy()
    res = tup(sheval(orc.odd_layout(r, x), orc.odd_layout(r, coef), **kw))
    order = list(np.ndindex(sh)); r.shuffle(order)
    for k in order:
        xk = x[k[:x.ndim - 1]]; ck = coef[k[:coef.ndim - 2]]
        one = tup(sheval(xk, ck, **kw))
        for a, b in zip(res, one): c.same(a[tuple(k)], b, "element %s of the batch" % (k,))
    c.same(x, x0, "input modified"); c.same(coef, c0, "input modified")

@contract("C07", 400)
def shevaltemp_batch(c):
    """shevaltemp of arrays of times and points, bit for bit"""
    r = c.rng
    kw = kws(r); sh = shapes(c.i); n = int(r.choice([1, 2, 5]))
    x = points(r, kw["coord_type_in"], 6).reshape((*sh, 3))
    tn = np.cumsum(r.random(4) + .1)
    t = r.choice(np.concatenate([tn[1:3], r.uniform(-1, 4, 2), [np.nan] if r.random() < .2 else []]), sh)
    which = int(r.integers(4))
    if which == 1: t = t.ravel()[0]
    elif which == 2: x = x.reshape(-1, 3)[0]
    elif which == 3: t = t[(slice(None),) + (0,) * (len(sh) - 1)]
    sets = []
    for _ in range(int(r.integers(1, 4))):
        nm = nm_list(r, n); so = int(r.integers(1, 3))
        sets.append((tn, r.normal(size=(len(nm), 4)), nm, so))
    c.note(arr_t=t, arr_x=x, sets=sets, **kw)
    try:
        res = tup(shevaltemp(orc.odd_layout(r, t), orc.odd_layout(r, x), sets, **kw))
    except ValueError as e:
        c.note(error=str(e)); c.require(False, "compatible shapes rejected: %s" % e)
    order = list(np.ndindex(res[0].shape if kw["mode"] != 2 else res[0].shape[:-1])); r.shuffle(order)
    for k in order:
        xk = x[k[:x.ndim - 1]]; tk = np.asarray(t)[k[:np.ndim(t)]]
        one = tup(shevaltemp(tk, xk, sets, **kw))
        for a, b in zip(res, one): c.same(a[tuple(k)], b, "element %s of the batch" % (k,))

@contract("C07", 250)
def sheval2dfs_batch(c):
    """sheval2dfs of arrays of times and points, bit for bit"""
    r = c.rng
    kw = kws(r); sh = shapes(c.i); n = int(r.choice([1, 2, 4]))
    x = points(r, kw["coord_type_in"], 6).reshape((*sh, 3))
    t1 = r.choice(list(r.random(3)) + ([np.nan] if r.random() < .2 else []), sh); t2 = r.choice(r.uniform(0, 24, 3), sh)
    which = int(r.integers(4))
    if which == 1: t1 = t1.ravel()[0]
    elif which == 2: x = x.reshape(-1, 3)[0]
    elif which == 3: t2 = t2[(slice(None),) + (0,) * (len(sh) - 1)]
    nm = nm_list(r, n); d1, d2 = int(r.integers(-3, 2)), int(r.integers(-3, 2))
    cs = (r.normal(size=(len(nm), 3, 4, 2)), nm, d1, d2, 6.28, 0.26)
    c.note(t1=t1, t2=t2, arr_x=x, coef_set=cs, **kw)
    res = tup(sheval2dfs(orc.odd_layout(r, t1), orc.odd_layout(r, t2), orc.odd_layout(r, x), cs, **kw))
    for k in np.ndindex(res[0].shape if kw["mode"] != 2 else res[0].shape[:-1]):
        one = tup(sheval2dfs(np.asarray(t1)[k[:np.ndim(t1)]], np.asarray(t2)[k[:np.ndim(t2)]], x[k[:x.ndim - 1]], cs, **kw))
        for a, b in zip(res, one): c.same(a[k], b, "element %s of the batch" % (k,))

@contract("C07", 250)
def convert_vrot_batch(c):
    """coordinate conversions, vector rotations, Fourier series and interpolation of arrays, bit for bit"""
    r = c.rng; sh = shapes(c.i)
    cti, cto = int(r.integers(3)), int(r.integers(3))
    x = points(r, cti, 6).reshape((*sh, 3)); v = r.normal(size=(*sh, 3)); la = r.choice([90., -90., 0., *r.uniform(-90, 90, 3)], sh); lo = r.choice([0., 180., *r.uniform(-180, 180, 3)], sh)
    c.note(x=x, v=v, lat=la, lon=lo, cti=cti, cto=cto)
    keep = x.copy()
    fs = [("convert", lambda a: convert(a, cti, cto), (x,)), ("vrot_sph2geod", vrot_sph2geod, (v, la)), ("vrot_sph2cart", vrot_sph2cart, (v, la, lo)), ("vrot_cart2sph", vrot_cart2sph, (v, la, lo)),
          ("fourier2d", lambda a, b: fourier2d(a, b, CO, -1, 0, .7, 1.3), (la, lo)), ("interp", lambda a: interp(a, [-40., 0., 10.5, 70.], CI, extrapolate=True), (la,))]
    CO = r.normal(size=(2, 3, 3, 2)); CI = r.normal(size=(3, 4))
    for name, f, args in fs:
        res = f(*[orc.odd_layout(r, a) for a in args])
        for k in np.ndindex(sh):
            c.same(res[k], f(*[a[k] for a in args]), "element %s of %s" % (k, name))
    c.same(x, keep, "input modified")

@contract("C07", 150)
def other_types_and_shapes(c):
    """integer / float32 / list inputs; incompatible shapes are rejected, not truncated or repeated"""
    r = c.rng; n = 3; coef = orc.rand_coef(r, n, 3)
    x = np.array([[10, 20, 7000], [-30, 40, 6500]])
    kw = dict(coord_type_in=1, coord_type_out=int(r.integers(3)))
    w = sheval(x.astype(float), coef, **kw)
    c.same(sheval(x, coef, **kw), w, "integers"); c.same(sheval(x.tolist(), coef.tolist(), **kw), w, "lists"); c.same(sheval(x.astype("f4"), coef, **kw), w, "float32"); c.same(sheval(x.astype(">f8"), coef.astype(">f8"), **kw), w, "byte order")
    a, b = int(r.integers(2, 5)), int(r.integers(5, 8))
    X = np.tile(x[0].astype(float), (a, b, 1)); 
    for sh in ((b,), (a + 1,), (b, a), (a, b + 1), (a, 1), (1, b)):
        C = np.tile(coef, (*sh, 1, 1))
        c.raises(lambda: sheval(X, C, **kw), "sheval accepts locations %s with coefficients %s" % (X.shape, C.shape))
        st = ([0., 1.], np.ones((3, 2)), [(1, 0), (1, 1), (1, -1)], 2)
        c.raises(lambda: shevaltemp(np.zeros(sh), X, [st], **kw), "shevaltemp accepts locations %s with times %s" % (X.shape, sh))
        f = (np.ones((3, 2, 2, 2)), [(1, 0), (1, 1), (1, -1)], 0, 0, 1., 1.)
        c.raises(lambda: sheval2dfs(np.zeros(sh), 0.0, X, f, **kw), "sheval2dfs t1")
        c.raises(lambda: sheval2dfs(0.0, np.zeros(sh), X, f, **kw), "sheval2dfs t2")
        c.raises(lambda: vrot_sph2cart(X, np.zeros(sh), np.zeros(sh)), "vrot_sph2cart"); c.raises(lambda: vrot_sph2geod(X, np.zeros(sh)), "vrot_sph2geod")
        c.raises(lambda: vrot_cart2sph(X, np.zeros(sh), np.zeros(sh)), "vrot_cart2sph"); c.raises(lambda: fourier2d(np.zeros((a, b)), np.zeros(sh), np.ones((2, 2, 2))), "fourier2d")
