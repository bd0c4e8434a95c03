"""C13: run with the sanitised (ASan + UBSan) rebuild of the native extensions."""
from core import contract
import numpy as np, orc, ctypes, gc
from eoxmagmod import _pymm, _pyqd, _pysunpos, _pytimeconv
from eoxmagmod.data import APEX_LATEST as APEX
from c07 import nm_list, kws, tup
P = _pymm
JUNK = [None, "x", object(), {}, [[1., 2.], [3.]], 1j, b"a", -1, np.nan, np.inf, np.zeros(0), np.zeros((0, 3)), np.zeros((2, 0)), np.zeros(1), np.zeros(2), np.zeros((1, 1, 1, 1, 1)), np.array(["a"]), np.float32(3), 2**40, True, (), []]

def size(n): return (n + 1) * (n + 2) // 2

@contract("C13", 250, asan=True)
def degrees(c):
    """every degree, index range and shape stays in the allocated arrays; results have the defined shapes"""
    r = c.rng; n = int(r.choice([0, 1, 2, 3, 15, 16, 17, 18, 40])) if c.i % 7 else int(r.choice([130, 400])); sh = [(), (2,), (2, 0), (2, 2)][int(r.integers(4))]
    c.note(degree=n, shape=sh)
    la = r.choice([90., -90., 0., 12.], sh); lo = r.choice([0., 180., 33.], sh); ra = r.choice([6371.2, 7000., 1.], sh)
    p, dp = P.legendre(la, n); c.require(p.shape == dp.shape == (*sh, size(n)), "legendre")
    rr = P.relradpow(ra, n, 6371.2, bool(c.i % 2)); c.require(rr.shape == (*sh, n + 1), "relradpow"); lc = P.loncossin(lo, n, bool(c.i % 3)); c.require(lc.shape == (*sh, n + 1, 2), "loncossin")
    coef = r.normal(size=(size(n), 2)); k = int(r.choice([-1, 0, n, n + 5, 2**20]))
    if sh == ():
        P.spharpot(ra, coef, p, rr, lc, k); P.sphargrd(la, coef, p, dp, rr, lc, bool(c.i % 2), k)
        for d in (1, 2):
            if len(p) > d:
                q = [coef, p, dp, rr, lc]
                for z in range(5):
                    w = list(q); w[z] = w[z][:-d]
                    try: P.sphargrd(la, *w, True, k)
                    except ValueError: pass
                    w = [w[0], w[1], w[3], w[4]]
                    try: P.spharpot(ra, *w, k)
                    except ValueError: pass
    x = np.stack([la, lo, ra], axis=-1)
    for d in (-1, 0, n, n + 1, n + 1000, -2**31, 2**31 - 1): 
        res = tup(P.sheval(x, coef, coord_type_in=1, coord_type_out=int(r.integers(3)), mode=3, degree=d)); c.require(res[0].shape == sh and res[1].shape == (*sh, 3), "sheval")
    P.sheval(x, coef[:int(r.integers(1, size(n) + 1))], mode=int(r.integers(1, 4)))

@contract("C13", 250, asan=True)
def series(c):
    """index ranges of 2D Fourier series, interpolation nodes and coefficient positions"""
    r = c.rng; d1, d2 = int(r.integers(-9, 9)), int(r.integers(-9, 9)); n1, n2 = int(r.integers(1, 12)), int(r.integers(1, 12)); c.note(d1=d1, d2=d2, n1=n1, n2=n2)
    c.require(P.fourier2d(r.random(2), r.random(2), r.normal(size=(2, n1, n2, 2)), d1, d2).shape == (2, 2), "fourier2d")
    n = int(r.integers(1, 20)); nm = nm_list(r, n); kw = kws(r); x = r.uniform(1, 80, (3, 3)) * [1, 1, 100]
    ab = r.normal(size=(len(nm), n1, n2, 2)); t = r.random(3)
    P.sheval2dfs(t, t, x, (ab, nm, d1, d2, 1., 2.), **kw)
    k = int(r.integers(1, 6)); tn = np.cumsum(r.random(k) + .1); s = int(r.integers(1, 3))
    sets = [(tn, r.normal(size=(len(nm), k)), nm, s), (tn, r.normal(size=(1, k)), [(int(r.integers(0, 30)), 0)], 1)]
    tt = r.choice([-1., 0., .5, 5., 50., np.nan, np.inf, -np.inf], 3)
    try: P.shevaltemp(tt, x, sets, **kw); ok = True
    except ValueError: ok = False
    c.require(ok == (k >= s), "accepted" if ok else "rejected", nodes=k, spline_order=s)
    for kind in (0, 1, 17):
        try: P.interp(tt, tn, r.normal(size=(2, k)), kind, bool(c.i % 2)); ok = True
        except ValueError: ok = False
        c.require(ok == (k >= (1 if kind == 0 else 2)), "interp of %d nodes" % k)
    P.bisect(tn, tt, c.i % 2); P.bisect(tn[:1], tt, c.i % 2)

BADNM = [[(-1, 0)], [(1, 2)], [(1, -2)], [(2, 3)], [(0, 1)], [(-2**31, 0)], [(3, -2**31)], [(2, 2**31 - 1)], [(-5, 3)]]
@contract("C13", 120, asan=True)
def invalid_sets(c):
    """invalid degree / order pairs, shapes and options raise exceptions"""
    r = c.rng; nm = BADNM[c.i % len(BADNM)] ; t = [0., 1.]; x = [10., 20., 7000.]; good = [(1, 0)]
    nm = good + nm if r.random() < .5 else nm + good; m = len(nm); c.note(nm=nm)
    c.raises(lambda: P.shevaltemp(.5, x, [(t, np.ones((m, 2)), nm, 2)]), "shevaltemp accepts (degree, order)")
    c.raises(lambda: P.sheval2dfs(.5, .5, x, (np.ones((m, 2, 2, 2)), nm, 0, 0, 1., 1.)), "sheval2dfs accepts (degree, order)")
    g = np.ones((2, 2)); nn = [(1, 0), (1, 1)]
    for s in ((t, np.ones((2, 3)), nn, 2), (t, np.ones((3, 2)), nn, 2), (t, np.ones(2), nn, 2), (t, g, [(1, 0, 1), (1, 1, 0)], 2), (t, g, [1, 1], 2), (t, g, nn, 0), (t, g, nn, 3), (t, g, nn, -1), ([t], g, nn, 2), (0., g, nn, 2), (t, g, nn), (t, g, nn, 2, 1), (t,), (), None, 3, (t[:1], g[:, :1], nn, 2), ([], np.ones((2, 0)), nn, 1), (t, g, nn, None), (None, g, nn, 2), ("a", g, nn, 2), (t, "b", nn, 2), (t, g, "c", 2)):
        c.raises(lambda: P.shevaltemp(.5, x, [s]), "shevaltemp accepts the set %r" % (s,)); c.raises(lambda: P.shevaltemp(.5, x, [(t, g, nn, 2), s]), "shevaltemp accepts the second set %r" % (s,))
    for s in (None, 1, "a"): c.raises(lambda: P.shevaltemp(.5, x, s), "list of sets %r" % (s,))
    a = np.ones((2, 2, 2, 2))
    for s in ((a, nn), (), None, 3, (a[0], nn, 0, 0, 1., 1.), (a[..., :1], nn, 0, 0, 1., 1.), (np.ones((3, 2, 2, 2)), nn, 0, 0, 1., 1.), (np.ones((2, 2, 2, 3)), nn, 0, 0, 1., 1.), (a, [1, 1], 0, 0, 1., 1.), (a, [(1, 0, 0)] * 2, 0, 0, 1., 1.), (a, nn, "x", 0, 1., 1.), (a, nn, 0, 0, None, 1.), (None, nn, 0, 0, 1., 1.)):
        c.raises(lambda: P.sheval2dfs(.5, .5, x, s), "sheval2dfs accepts the set %r" % (s,))
    co = np.ones((3, 2))
    for kw in (dict(coord_type_in=3), dict(coord_type_in=-1), dict(coord_type_out=3), dict(coord_type_out=77), dict(mode=0), dict(mode=4), dict(mode=-1), dict(mode=8), dict(scale_gradient=[1., 2.]), dict(scale_gradient=np.ones((3, 1))), dict(scale_gradient="a"), dict(scale_gradient=np.ones(4)), dict(unknown=1), dict(coord_type_in="a"), dict(mode=None)):
        c.raises(lambda: P.sheval(x, co, **kw), "sheval accepts %s" % kw); c.raises(lambda: P.shevaltemp(.5, x, [(t, g, nn, 2)], **kw), "shevaltemp accepts %s" % kw); c.raises(lambda: P.sheval2dfs(.5, .5, x, (a, nn, 0, 0, 1., 1.), **kw), "sheval2dfs accepts %s" % kw)
    for z in ([1., 2.], [1.], 1., np.ones((3, 2)), np.ones(4), np.ones((2, 4)), None, "a"):
        c.raises(lambda: P.sheval(z, co), "location %r" % (z,)); c.raises(lambda: P.shevaltemp(.5, z, [(t, g, nn, 2)]), "location %r" % (z,)); c.raises(lambda: P.sheval2dfs(.5, .5, z, (a, nn, 0, 0, 1., 1.)), "location %r" % (z,)); c.raises(lambda: P.convert(z, 0, 1), "convert %r" % (z,))
        c.raises(lambda: P.vrot_sph2cart(z, 0., 0.), "vrot_sph2cart"); c.raises(lambda: P.vrot_cart2sph(z, 0., 0.), "vrot_cart2sph"); c.raises(lambda: P.vrot_sph2geod(z, 0.), "vrot_sph2geod")
    for z in (np.ones(3), np.ones((3, 1)), np.ones((3, 3)), 1., np.ones((0, 2)), None): c.raises(lambda: P.sheval(x, z), "coefficients %r" % (z,))
    for z in (np.ones((2, 2)), np.ones((2, 2, 1)), np.ones((2, 2, 3)), 1., None): 
        if not (isinstance(z, np.ndarray) and z.shape[-1] == 2 and z.ndim >= 3): c.raises(lambda: P.fourier2d(.5, .5, z), "fourier2d %r" % (z,))
    for k in (3, -1, 9): c.raises(lambda: P.convert(x, k, 0), "convert from %d" % k); c.raises(lambda: P.convert(x, 0, k), "convert to %d" % k)
    P.bisect([], 1.); c.raises(lambda: P.bisect([[1., 2.]], 1.), "2D nodes"); c.raises(lambda: P.bisect(1., 1.), "scalar nodes"); c.raises(lambda: P.bisect([1.], 1., 2), "side"); c.raises(lambda: P.bisect([1.], 1., -1), "side")
    for d in (-1, -5, -2**31): c.raises(lambda: P.legendre(10., d), "degree %d" % d); c.raises(lambda: P.relradpow(7000., d), "degree"); c.raises(lambda: P.loncossin(7., d), "degree")

def table():
    x = [10., 20., 7000.]; co = np.ones((6, 2)); t = [0., 1.]; g = np.ones((2, 2)); nn = [(1, 0), (1, 1)]; a = np.ones((2, 2, 2, 2)); p, dp = P.legendre(10., 2); rr = P.relradpow(7000., 2); lc = P.loncossin(10., 2)
    return [(P.sheval, [x, co, 0, 0, 2, True, -1, 1., 1.]), (P.shevaltemp, [.5, x, [(t, g, nn, 2)], 0, 0, 2, True, 1., 1.]), (P.sheval2dfs, [.5, .5, x, (a, nn, 0, 0, 1., 1.), 0, 0, 2, True, 1., 1.]), (P.interp, [.5, t, g, 1, False]), (P.bisect, [t, .5, 0]),
            (P.fourier2d, [.5, .5, a, 0, 0, 1., 1.]), (P.legendre, [10., 3]), (P.relradpow, [7000., 3, 6371.2, True]), (P.loncossin, [10., 3, True]), (P.spharpot, [7000., co, p, rr, lc, -1]), (P.sphargrd, [10., co, p, dp, rr, lc, True, -1]), (P.convert, [x, 0, 1]),
            (P.vrot_sph2cart, [x, 1., 2.]), (P.vrot_cart2sph, [x, 1., 2.]), (P.vrot_sph2geod, [x, 1.]), (_pysunpos.sunpos, [100., 1., 2., 3., 0.]), (_pysunpos.sunpos_original, [100., 1., 2., 3., 0., 1., 0.]), (_pytimeconv.decimal_year_to_mjd2000, [2001.]),
            (_pytimeconv.mjd2000_to_decimal_year, [1.]), (_pytimeconv.mjd2000_to_year_fraction, [1.]), (_pyqd.eval_mlt, [1., 2.]), (_pyqd.eval_subsol, [3.]), (_pyqd.eval_qdlatlon, [1., 2., 7000., 2010., APEX])]
TABLE = table()

@contract("C13", 1200, asan=True)
def junk(c):
    """wrong types, numbers and shapes of arguments either give a result or an exception"""
    r = c.rng; f, args = TABLE[c.i % len(TABLE)]; a = list(args)
    for _ in range(int(r.integers(1, 3))):
        k = int(r.integers(len(a) - (f is _pyqd.eval_qdlatlon))); j = int(r.integers(len(JUNK) + 2))
        if j < len(JUNK): a[k] = JUNK[j]
        else:
            try: a[k] = np.broadcast_to(np.asarray(a[k]), (int(r.integers(0, 3)), *np.shape(a[k])))
            except Exception: a[k] = None
    if r.random() < .1: a = a[:int(r.integers(len(a)))]
    if r.random() < .05: a = a + [1]
    if any(type(z) is int and abs(z) > 10**5 for z in a): return   # (huge degrees allocate huge arrays)
    c.note(function=f.__name__, args=[repr(z)[:200] for z in a])
    try: f(*a)
    except Exception as e: c.note(raised=repr(e))
    f(*args)

allocated = None
def setup_allocated():
    global allocated
    allocated = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes; allocated.restype = ctypes.c_size_t

@contract("C13", len(TABLE), asan=True)
def released(c):
    """memory allocated by an evaluation is released, also when the evaluation fails"""
    r = c.rng; f, args = TABLE[c.i % len(TABLE)]
    bad = []; setup_allocated(); gc.collect(); gc.disable()
    for k in range(len(args) - (f is _pyqd.eval_qdlatlon)):
        for j in (None, "x", np.zeros(0), np.ones(5), np.ones((2, 5)), [(1, 2)], (1, 2), -7, [(np.zeros(2), np.ones((2, 2)), [(1, 0), (1, 2)], 2)], [(np.zeros(2), np.ones((2, 2)), [(1, 0), (1, 1)], 2), 3], (np.ones((2, 2, 2, 2)), [(1, 5), (1, 1)], 0, 0, 1., 1.), (np.ones((2, 2, 2, 2)), [(1, 0), (1, 1)], 0, 0, 1., "a")):
            z = list(args); z[k] = j; bad.append(z)
    def go(z):
        try: f(*z)
        except Exception: pass
    for z in [args] + bad:
        for _ in range(3): go(z)
        n = 20; d = 1 << 60
        for _ in range(4):
            b = allocated()
            for _ in range(n): go(z)
            d = min(d, allocated() - b)
            if d <= 0: break
        c.require(d < 8 * n, "memory not released: %d bytes in %d calls" % (d, n), function=f.__name__, args=[repr(q)[:300] for q in z])
    gc.enable()
