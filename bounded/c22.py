from core import contract
import numpy as np, orc, os, tempfile, datetime as dt
from spacepy import pycdf
from eoxmagmod.magnetic_model import loader_mma as L, parser_mma as P
from c15 import rand_nm, piecewise
from c16 import loc
E2000 = 63113904000000.0

def series(r, nm, t0, n): return np.sort(t0 + r.choice(np.arange(0, 40), n, replace=False) / 16. + 0.), r.normal(size=(len(nm), n)).round(4) * 100

def write(path, sets):
    """sets: name suffix -> (nm, t, {variable: coefficients}, 3D nm flag)"""
    with pycdf.CDF(path, "") as f:
        for (vt, vn), (nm, t, cf, nm3) in sets.items():
            v = f.new(vt, type=pycdf.const.CDF_EPOCH, dims=[len(t)], recVary=True); f.raw_var(vt)[0] = t * 86400000.0 + E2000
            f.new(vn, type=pycdf.const.CDF_INT2, dims=list(nm.shape) if nm3 else [2], recVary=True)
            if nm3: f[vn][0] = nm
            else: f[vn][...] = nm
            for k, q in cf.items():
                f.new(k, type=pycdf.const.CDF_DOUBLE, dims=[len(t), len(nm)], recVary=True); f[k][0] = q.T

class Files:
    def __init__(self, datas): self.d = datas
    def __enter__(self):
        self.dir = tempfile.mkdtemp(dir=os.getcwd()); self.p = []
        for k, s in enumerate(self.d):
            self.p.append(os.path.join(self.dir, "f%d.cdf" % k)); write(self.p[-1], s)
        return self.p
    def __exit__(self, *a):
        for f in os.listdir(self.dir): os.unlink(os.path.join(self.dir, f))
        os.rmdir(self.dir)

KINDS = {"2c_internal": ("gh", "2c", True), "2c_external": ("qs", "2c", False), "2f_geo_internal": ("gh", "geo", True), "2f_geo_external": ("qs", "geo", False), "2f_sm_internal": ("gh", "sm", True), "2f_sm_external": ("qs", "sm", False)}

def dataset(r, t0, nms, n=None):
    """one file with all variables; returns (sets to write, reference)"""
    sets, ref = {}, {}
    nm3 = bool(r.random() < .5)
    for v in ("gh", "qs"):
        for s in ("1", "2"):
            nm = nms[v + s]; t, c = series(r, nm, t0, n or int(r.integers(2, 6))); sets[("t_%s_%s" % (v, s), "nm_%s_%s" % (v, s))] = (nm, t, {"%s_%s" % (v, s): c}, True); ref[v + s] = (nm, t, c)
        nm = nms[v]; t, c = series(r, nm, t0, n or int(r.integers(2, 6))); c2 = c * .5 + 1; sets[("t_" + v, "nm_" + v)] = (nm, t, {v + "_geo": c, v + "_sm": c2}, nm3); ref[v + "geo"] = (nm, t, c); ref[v + "sm"] = (nm, t, c2)
    return sets, ref

def nmsets(r):
    a = rand_nm(r, 3); b = rand_nm(r, 3); return {k: rand_nm(r, int(r.integers(1, 4))) for k in ("gh", "qs", "gh1", "gh2", "qs1", "qs2")}

def expect(refs, key, t, size):
    nm = refs[0][key][0]; tt = np.concatenate([q[key][1] for q in refs]); cc = np.concatenate([q[key][2] for q in refs], 1); m = np.zeros((size, 2))
    for (n, k), row in zip(nm, cc): m[orc.idx(n, abs(k)), int(k < 0)] += piecewise(t, tt, row, 2)
    return m

@contract("C22", 50)
def products(c):
    """coefficients keep degree, order and sample time; files merged in the given order; both sets of a product applied"""
    r = c.rng; nms = nmsets(r); k = int(r.integers(1, 5)); t0 = float(r.choice([-400., 0., 5000.])); ds = [dataset(r, t0 + 3 * i, nms) for i in range(k)]; refs = [q for _, q in ds]
    c.note(nms=nms, files=k, t0=t0, times=[{q: v[1] for q, v in z.items()} for z in refs])
    with Files([s for s, _ in ds]) as paths:
        for kind, (v, fr, internal) in KINDS.items():
            keys = [v + "1", v + "2"] if fr == "2c" else [v + fr]
            o = getattr(L, "load_coeff_swarm_mma_" + kind)(*paths); c.require(bool(o.is_internal) is internal, kind + " source kind")
            n = [refs[0][q][0][:, 0] for q in keys]; c.require((o.min_degree, o.degree) == (min(q.min() for q in n), max(q.max() for q in n)), kind + " degrees")
            lo, hi = max(refs[0][q][1][0] for q in keys), min(refs[-1][q][1][-1] for q in keys); c.close(np.array(o.validity, dtype=float), [lo, hi], kind + " validity", rtol=0, atol=1e-9)
            ts = np.concatenate([r.uniform(lo - .5, hi + .5, 4), [refs[-1][keys[0]][1][0] + 1e-6]]); M, d = o(ts)
            for t, m in zip(ts, M): c.close(m, sum(expect(refs, q, t, orc.nmax_size(int(o.degree))) for q in keys), kind + " coefficients at %r" % t, rtol=1e-7, atol=2e-4)
            with pycdf.CDF(paths[0]) as f: res = getattr(P, "read_swarm_mma_" + kind)(f); res = res if isinstance(res, tuple) else (res,)
            for q, z in zip(keys, res):
                c.same(z["nm"], refs[0][q][0], "nm"); c.close(z["t"], refs[0][q][1], "times", rtol=0, atol=1e-9); c.same(z[v], refs[0][q][2], "coefficients"); c.require((z["degree_min"], z["degree_max"]) == (z["nm"][:, 0].min(), z["nm"][:, 0].max()), "degrees")
            m = getattr(L, "load_model_swarm_mma_" + kind)(*paths); c.require(tuple(m.validity) == tuple(o.validity), kind + " model validity")
            if lo < hi: c.require(np.isfinite(m.eval((lo + hi) / 2, [30., 40., 6700.])).all(), kind + " model")
            if k > 1:
                for bad in (paths[::-1], paths[:k - 2] + [paths[-1], paths[-2]]): c.raises(lambda: getattr(L, "load_coeff_swarm_mma_" + kind)(*bad), kind + " files not in time order", exc=ValueError)

@contract("C22", 50)
def rejected(c):
    """files with different degrees, orders are rejected"""
    r = c.rng; nms = nmsets(r); other = dict(nms); key = str(r.choice(sorted(nms)))
    nm = nms[key].copy(); how = int(r.integers(0, 4))
    if how == 0: nm = np.concatenate([nm, [[nm[:, 0].max() + 1, 0]]])
    elif how == 1: nm[-1, 1] = nm[-1, 1] + 1
    elif how == 2: nm = nm[:-1] if len(nm) > 1 else np.array([[nm[0, 0] + 1, 0]])
    else: nm = nm[::-1].copy() if len(nm) > 1 and (nm[::-1] != nm).any() else nm + [[1, 0]]
    other[key] = nm; a, ra = dataset(r, 0., nms); b, rb = dataset(r, 3., other); c.note(key=key, nm=nms[key], other=nm)
    with Files([a, b]) as paths:
        for kind, (v, fr, internal) in KINDS.items():
            keys = [v + "1", v + "2"] if fr == "2c" else [v]; f = lambda: getattr(L, "load_coeff_swarm_mma_" + kind)(*paths)
            if key in keys: c.raises(f, kind + " with different coefficients", exc=ValueError)
            else: f()

@contract("C22", 30)
def dates(c):
    """CDF epochs are days since 2000-01-01; unsupported time types are rejected"""
    r = c.rng; d = dt.datetime(int(r.integers(1980, 2040)), int(r.integers(1, 13)), int(r.integers(1, 28)), int(r.integers(0, 24)), int(r.integers(0, 60)))
    path = os.path.join(tempfile.mkdtemp(dir=os.getcwd()), "x.cdf"); times = [d, d + dt.timedelta(hours=1)]; c.note(times=[str(q) for q in times]); rej = c.i % 3 == 2
    with pycdf.CDF(path, "") as f:
        f.new("t_qs", type=pycdf.const.CDF_TIME_TT2000 if rej else pycdf.const.CDF_EPOCH, dims=[2]); f["t_qs"][0] = times
        f.new("nm_qs", type=pycdf.const.CDF_INT2, dims=[2]); f["nm_qs"][...] = np.array([[1, 0]]); f.new("qs_geo", type=pycdf.const.CDF_DOUBLE, dims=[2, 1]); f["qs_geo"][0] = np.array([[1.], [2.]])
    try:
        if rej: c.raises(lambda: L.load_coeff_swarm_mma_2f_geo_external(path), "time type", exc=TypeError); return
        o = L.load_coeff_swarm_mma_2f_geo_external(path); w = [(q - dt.datetime(2000, 1, 1)).total_seconds() / 86400 for q in times]
        c.close(np.array(o.validity, dtype=float), w, "sample times", rtol=0, atol=1e-8); c.close(o(w[0])[0][1], [1, 0], "value", atol=1e-6)
    finally: os.unlink(path); os.rmdir(os.path.dirname(path))
