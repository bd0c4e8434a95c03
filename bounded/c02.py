from core import contract
import numpy as np, orc
from eoxmagmod import _pymm
C0, C1, C1D1 = _pymm.INTERP_C0, _pymm.INTERP_C1, _pymm.INTERP_C1D1

def oracle(t, t0, row, kind, ext):
    n = len(t0); L = np.longdouble
    if np.isnan(t): return "nan" if kind == C1 or not ext else "any"
    if kind == C0:
        i = int((t0 <= t).sum()) - 1
        if i < 0: return row[0] if ext else np.nan
        return row[i]
    if not ext and not (t0[0] <= t <= t0[-1]): return np.nan
    i = min(max(int((t0 <= t).sum()) - 1, 0), n - 2)
    s = (L(row[i + 1]) - L(row[i])) / (L(t0[i + 1]) - L(t0[i]))
    if kind == C1D1: return float(s)
    return float(L(row[i]) + s * (L(t) - L(t0[i])))

@contract("C02", 1200)
def interp_definition(c):
    """value of each row and time is the defined piecewise function"""
    r = c.rng
    kind = [C0, C1, C1D1][c.i % 3]; ext = bool((c.i // 3) % 2)
    n = int(r.integers(1 if kind == C0 else 2, 12))
    t0 = np.cumsum(r.uniform(0.05, 1.0, n)) * 10.0 ** r.integers(-2, 4) + r.normal() * 10
    shape0 = [(), (1,), (3,), (2, 3), (0, 2)][int(r.integers(5))]
    coef = r.normal(size=(*shape0, n)) * 100
    xs = np.concatenate([r.choice(t0, 4), t0[[0, -1]], np.nextafter(t0[[0, -1]], [-np.inf, np.inf]), r.uniform(t0[0] - (t0[-1] - t0[0]) * .3 - 1, t0[-1] + (t0[-1] - t0[0]) * .3 + 1, 8), [np.nan]])
    r.shuffle(xs)
    shape = [(xs.size,), (1, xs.size), (xs.size, 1)][int(r.integers(3))]
    c.note(time=xs, time0=t0, coeff0=coef, kind=kind, extrapolate=ext)
    got = _pymm.interp(orc.odd_layout(r, xs.reshape(shape)), orc.odd_layout(r, t0), orc.odd_layout(r, coef), kind, ext)
    c.require(got.shape == (*shape, *shape0), "shape of the result %s" % (got.shape,))
    got = got.reshape((xs.size, -1)) if coef.size else got
    rows = coef.reshape((-1, n))
    for k, t in enumerate(xs):
        for j, row in enumerate(rows):
            w = oracle(t, t0, row, kind, ext)
            if isinstance(w, str):
                if w == "nan": c.require(np.isnan(got[k, j]), "NaN time yields a number (kind %d)" % kind, k=k, j=j, got=got[k, j])
                continue
            sc = np.abs(row).max() * 1e-11 * (1 + max(0, abs(t - t0).max() / np.diff(t0).min() if n > 1 else 0)) * (1 / np.diff(t0).min() if kind == C1D1 else 1)
            c.close(got[k, j], w, "interp kind %d extrapolate %s t=%r" % (kind, ext, t), rtol=1e-11, atol=sc, j=j)
    if coef.size:
        k = int(r.integers(xs.size))
        c.same(_pymm.interp(xs[k], t0, coef, kind, ext).ravel(), got[k], "single time equals batch", k=k)

@contract("C02", 60)
def interp_rejects(c):
    """unsupported kinds and too short or mismatching series are rejected"""
    t0 = np.arange(3.0)
    c.raises(lambda: _pymm.interp(0.5, t0, np.ones((2, 4)), C1), "size mismatch")
    c.raises(lambda: _pymm.interp(0.5, t0[:1], np.ones((2, 1)), C1), "too short")
    c.raises(lambda: _pymm.interp(0.5, t0[:0], np.ones((2, 0)), C0), "empty")
    for k in (2, 3, -1, 15, 18, 33):
        c.raises(lambda: _pymm.interp(0.5, t0, np.ones((2, 3)), k), "kind %d" % k)
