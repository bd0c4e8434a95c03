from core import contract
import numpy as np, orc, io, os, tempfile
from eoxmagmod.magnetic_model import parser_shc, parser_igrf, parser_wmm, parser_emm, parser_mio, loader_shc, loader_igrf, loader_wmm, loader_emm, loader_mio
from eoxmagmod import decimal_year_to_mjd2000 as d2m, mjd2000_to_decimal_year as m2d
from c15 import rand_nm, piecewise

def num(r): return float(r.choice([0., round(r.normal() * 10 ** r.uniform(-2, 4), int(r.integers(0, 6))), float("%.3e" % r.normal())]))
def fmt(r, v): v = float(v); return repr(v) if r.random() < .5 else "%.17g" % v if r.random() < .5 else "%+.16e" % v
def sep(r): return str(r.choice([" ", "  ", "\t", "    "]))
def eol(r, text): return text.replace("\n", "\r\n") if r.random() < .1 else text
def comments(r, c="#"):
    out = ""
    for _ in range(int(r.integers(0, 4))): out += str(r.choice(["", "   ", c + " comment 1 2 3", "  " + c + "x", c])) + "\n"
    return out

def write(text):
    fd, p = tempfile.mkstemp(dir=os.getcwd(), suffix=".txt")
    with os.fdopen(fd, "w", newline="") as f: f.write(text)
    return p

class File:
    def __init__(self, text): self.t = text
    def __enter__(self): self.p = write(self.t); return self.p
    def __exit__(self, *a): os.unlink(self.p)

def shc_file(r, k=None, so=None, validity=None):
    nm = rand_nm(r, int(r.integers(1, 6)), 1); k = k or int(r.integers(1, 5)); t = np.sort(r.choice(np.arange(1990, 2030, .25), k, replace=False)); cf = np.array([[num(r) for _ in range(k)] for _ in nm])
    so = so or int(r.choice([1, 2, 2, 3, 6])); so = so if k > 1 else int(r.choice([0, 1, 2]))
    head = [int(nm[:, 0].min()), int(nm[:, 0].max()), k, so, int(r.integers(1, 5))]
    if validity is None: validity = r.random() < .4
    v = tuple(sorted(r.uniform(1980, 2040, 2).round(3))) if validity else None
    s = sep(r)
    text = comments(r) + s.join(map(str, head)) + (s + s.join(map(str, v)) if v else "") + (" # comment" if r.random() < .2 else "") + "\n" + s.join(fmt(r, q) for q in t) + "\n"
    for (n, m), row in zip(nm, cf): text += s.join([str(n), str(m)] + [fmt(r, q) for q in row]) + "\n"
    return eol(r, text), dict(nm=nm, t=t, gh=cf, head=head, validity=v, k=k, so=so)

@contract("C21", 400)
def shc(c):
    """SHC: values at own degree, order and node; header, comments, validity, interpolation order"""
    r = c.rng; text, w = shc_file(r); c.note(text=text[:2000])
    d = parser_shc.parse_shc_file(io.StringIO(text, newline=None))
    c.same(d["nm"], w["nm"], "nm"); c.same(d["gh"], w["gh"], "gh"); c.same(d["t"], w["t"], "times")
    c.require([d[q] for q in ("degree_min", "degree_max", "ntime", "spline_order", "nstep")] == w["head"], "header", res={q: d[q] for q in d if q not in ("nm", "gh", "t")})
    v = w["validity"] or ((w["t"].min(), w["t"].max()) if w["k"] > 1 else (-np.inf, np.inf))
    c.require((d["validity_start"], d["validity_end"]) == v, "validity", res=(d["validity_start"], d["validity_end"]))
    h = parser_shc.parse_shc_header(io.StringIO(text, newline=None)); c.require(all(np.array_equal(h[q], d[q]) for q in h) and set(d) - set(h) == {"nm", "gh"}, "header parser")
    with File(text) as p:
        iy = bool(r.random() < .4); o = loader_shc.load_coeff_shc(p, interpolate_in_decimal_years=iy) if iy else loader_shc.load_coeff_shc(p)
        o2 = loader_shc.load_coeff_shc(io.StringIO(text, newline=None), interpolate_in_decimal_years=iy)
        c.close(np.array(o.validity, dtype=float), [float(d2m(q)) for q in v], "coefficient validity", rtol=0, atol=1e-7)
        c.require((o.min_degree, o.degree) == (w["nm"][:, 0].min(), w["nm"][:, 0].max()), "degrees")
        m = loader_shc.load_model_shc(p, interpolate_in_decimal_years=iy); c.require(m.validity == o.validity, "model validity")
    ts = np.concatenate([r.uniform(w["t"].min() - 1, w["t"].max() + 1, 4), r.choice(w["t"], 1) + 0.001]); so = min(max(w["so"], 1), 2) if w["k"] > 1 else 1
    for y in ts:
        t = float(d2m(y)); u, tn = (float(m2d(t)), w["t"]) if iy else (t, np.array([float(d2m(q)) for q in w["t"]]))
        want = np.zeros((orc.nmax_size(int(o.degree)), 2))
        for (n, k), row in zip(w["nm"], w["gh"]): want[orc.idx(n, abs(k)), int(k < 0)] = piecewise(u, tn, row, so)
        got, _ = o(t); c.close(got, want, "coefficients at %r" % y, rtol=1e-8, atol=1e-8 * (np.abs(w["gh"]).max() + 1e-9)); c.same(o2(t)[0], got, "file object")

@contract("C21", 60)
def shc_multi(c):
    """composed and combined loaders use all files in the given order"""
    r = c.rng; a, wa = shc_file(r, 3, validity=False); b, wb = shc_file(r, 1, validity=False); t = float(d2m((wa["t"][0] + wa["t"][1]) / 2)); c.note(a=a[:1000], b=b[:1000])
    with File(a) as p, File(b) as q:
        x, y = loader_shc.load_coeff_shc(p), loader_shc.load_coeff_shc(q)
        for o, f in ((loader_shc.load_coeff_shc_combined(p, q), lambda u, v: u + v), (loader_shc.load_coeff_shc_composed(p, q), lambda u, v: u), (loader_shc.load_coeff_shc_composed(q, p), lambda u, v: v), (loader_shc.load_coeff_shc_combined(x, q), lambda u, v: u + v)):
            n = orc.nmax_size(max(x.degree, y.degree)); u, v = np.zeros((n, 2)), np.zeros((n, 2)); g = np.zeros((n, 2)); A, B, G = x(t)[0], y(t)[0], o(t)[0]
            u[:len(A)] = A; v[:len(B)] = B; g[:len(G)] = G; c.close(g, f(u, v), "coefficients", rtol=1e-12)
        m = loader_shc.load_model_shc_combined(p, q); c.require(m.validity == loader_shc.load_coeff_shc_combined(p, q).validity, "validity")

@contract("C21", 200)
def igrf(c):
    """IGRF: g/h values at own degree, order and epoch, the secular variation as a node five years later"""
    r = c.rng; k = int(r.integers(1, 5)); t = np.arange(k) * 5. + 1900; nm = rand_nm(r, 4, 1); cf = np.array([[num(r) for _ in range(k + 1)] for _ in nm])
    text = comments(r) + "c/s deg ord " + " ".join(["IGRF"] * k) + " SV\n" + "g/h n m " + " ".join("%.1f" % q for q in t) + " %d-%d\n" % (t[-1], t[-1] - 1995)
    for (n, m), row in zip(nm, cf): text += "%s %d %d " % ("h" if m < 0 else "g", n, abs(m)) + sep(r).join(fmt(r, q) for q in row) + "\n"
    text = eol(r, text); c.note(text=text[:2000]); d = parser_igrf.parse_igrf_file(io.StringIO(text, newline=None))
    w = cf.copy(); w[:, -1] = cf[:, -2] + 5 * cf[:, -1]
    c.same(d["nm"], nm, "nm"); c.same(d["t"], np.append(t, t[-1] + 5), "times"); c.close(d["gh"], w, "gh", rtol=1e-15); c.require((d["degree_min"], d["degree_max"]) == (nm[:, 0].min(), nm[:, 0].max()), "degrees")
    with File(text) as p: o = loader_igrf.load_coeff_igrf(p); mv = loader_igrf.load_model_igrf(p).validity
    tn = d["t"]; c.close(np.array(o.validity, dtype=float), [float(d2m(tn[0])), float(d2m(tn[-1]))], "validity", rtol=0, atol=1e-7); c.require(mv == o.validity, "model validity")
    check_dy(c, r, o, nm, tn, w)

def check_dy(c, r, o, nm, tn, w, extra=None):
    for y in r.uniform(tn[0], tn[-1], 3):
        t = float(d2m(y)); u = float(m2d(t)); want = np.zeros((orc.nmax_size(int(o.degree)), 2))
        for (n, k), row in zip(nm, w): want[orc.idx(n, abs(k)), int(k < 0)] += piecewise(u, tn, row, 2)
        for (n, k), v in (extra or []): want[orc.idx(n, abs(k)), int(k < 0)] += v
        c.close(o(t)[0], want, "coefficients at %r" % y, rtol=1e-8, atol=1e-8 * (np.abs(w).max() + 1e-9))

@contract("C21", 200)
def wmm(c):
    """WMM: non-zero g and h values, secular variation as a node five years later, terminated by nines"""
    r = c.rng; ep = float(r.choice([2010., 2015., 2020.5])); n1 = int(r.integers(1, 5)); nm, cf, text = [], [], "    %.1f            WMM-%d        12/15/2014\n" % (ep, ep)
    for n in range(1, n1 + 1):
        for m in range(n + 1):
            if r.random() < .2 and not (n == n1 and m == n1): continue
            g, h, dg, dh = (num(r) for _ in range(4))
            if n == n1 and m == n1: g = 12.5
            if m == 0: h = dh = 0.
            text += sep(r) + sep(r).join([str(n), str(m)] + [fmt(r, q) for q in (g, h, dg, dh)]) + "\n"
            if g or dg: nm.append((n, m)); cf.append((g, g + 5 * dg))
            if m and (h or dh): nm.append((n, -m)); cf.append((h, h + 5 * dh))
    if r.random() < .8: text += "9" * 48 + "\n" + "9" * 48 + "\n"
    c.note(text=text); d = parser_wmm.parse_wmm_file(io.StringIO(text, newline=None)); nm, cf = np.array(nm), np.array(cf)
    c.same(d["nm"], nm, "nm"); c.close(d["gh"], cf, "gh", rtol=1e-14, atol=1e-14 * np.abs(cf).max()); c.same(d["t"], [ep, ep + 5], "times"); c.require((d["degree_min"], d["degree_max"], d["epoch"], d["name"], d["version"]) == (nm[:, 0].min(), nm[:, 0].max(), ep, "WMM-%d" % ep, "12/15/2014"), "header")
    with File(text) as p: o = loader_wmm.load_coeff_wmm(p); mv = loader_wmm.load_model_wmm(p).validity
    c.close(np.array(o.validity, dtype=float), [float(d2m(ep)), float(d2m(ep + 5))], "validity", rtol=0, atol=1e-7); c.require(mv == o.validity, "model validity"); check_dy(c, r, o, nm, d["t"], cf)

def emm_file(r, n1, ep, keep=1.0):
    rows = []
    for n in range(1, n1 + 1):
        for m in range(n + 1): rows.append((n, m, num(r), num(r) if m else 0.))
    text = "Model: EMM\nEpoch:  %.1f\n some header line here\n" % ep + "-" * 30 + "\n" + "".join(sep(r).join([str(n), str(m), fmt(r, g), fmt(r, h)]) + "\n" for n, m, g, h in rows)
    nm, cf = [], []
    for n, m, g, h in rows:
        nm.append((n, m)); cf.append(g)
        if m: nm.append((n, -m)); cf.append(h)
    return text, np.array(nm), np.array(cf)

@contract("C21", 150)
def emm(c):
    """EMM: static and secular variation files combined, incompatible files rejected"""
    r = c.rng; ns = int(r.integers(2, 6)); nv = int(r.integers(1, ns)); ep = float(r.choice([2015., 2000., 2017.5]))
    s, nms, cs = emm_file(r, ns, ep); v, nmv, cv = emm_file(r, nv, ep); c.note(static=s, secvar=v)
    if not cs[len(cv):].any(): return
    ds, dv = parser_emm.parse_emm_file(io.StringIO(s, newline=None)), parser_emm.parse_emm_file(io.StringIO(v, newline=None))
    for d, nm, cf in ((ds, nms, cs), (dv, nmv, cv)):
        c.same(d["nm"], nm, "nm"); c.same(d["gh"], cf[:, None], "gh"); c.same(d["t"], [ep], "times"); c.require((d["degree_min"], d["degree_max"], d["epoch"]) == (1, nm[:, 0].max(), ep), "header")
    a, b = parser_emm.combine_emm_coefficients(ds, dv); k = len(cv); w = np.stack([cs[:k], cs[:k] + 5 * cv], -1)
    c.same(a["nm"], nmv, "variable nm"); c.close(a["gh"], w, "variable gh", rtol=1e-15); c.same(a["t"], [ep, ep + 5], "variable times")
    nz = cs[k:] != 0; c.same(b["nm"], nms[k:][nz], "constant nm"); c.same(b["gh"][:, 0], cs[k:][nz], "constant gh"); c.require((b["degree_min"], b["degree_max"]) == (nms[k:][nz][:, 0].min(), nms[k:][nz][:, 0].max()), "constant degrees")
    with File(s) as p, File(v) as q: o = loader_emm.load_coeff_emm(p, q); mv = loader_emm.load_model_emm(p, q).validity
    c.close(np.array(o.validity, dtype=float), [float(d2m(ep)), float(d2m(ep + 5))], "validity", rtol=0, atol=1e-7); c.require(tuple(mv) == tuple(o.validity), "model validity"); check_dy(c, r, o, nmv, a["t"], w, list(zip(map(tuple, nms[k:]), cs[k:])))
    s2, _, _ = emm_file(r, ns, ep + 5); c.raises(lambda: parser_emm.combine_emm_coefficients(parser_emm.parse_emm_file(io.StringIO(s2)), dv), "different epochs", exc=ValueError)
    bad = dict(dv); bad["nm"] = dv["nm"].copy(); bad["nm"][int(r.integers(0, k)), int(r.integers(0, 2))] += 1
    c.raises(lambda: parser_emm.combine_emm_coefficients(ds, bad), "different nm", exc=ValueError)
    c.raises(lambda: parser_emm.combine_emm_coefficients(dv, ds), "more secular variation than static coefficients", exc=ValueError)

def mio_file(r):
    nm = rand_nm(r, int(r.integers(1, 4)), 1); a, b = sorted(int(q) for q in r.integers(-2, 4, 2)); d, e = sorted(int(q) for q in r.integers(-2, 4, 2))
    sh = (len(nm), e - d + 1, b - a + 1, 2); qs, gh = (np.array([num(r) for _ in range(int(np.prod(sh)))]).reshape(sh) for _ in range(2))
    th, ph = round(float(r.uniform(0, 30)), 2), round(float(r.choice([r.uniform(0, 360), r.uniform(-180, 180)])), 2); h = float(r.choice([110., 90.])); wo = round(float(r.uniform(0, .03)), 5)
    s = sep(r); head = [int(nm[:, 0].max()), int(np.abs(nm[:, 1]).max()), a, b, d, e, th, ph, h, wo]
    text = comments(r) + s.join(map(str, head)) + "\n"
    for cf in (qs, gh):
        for (n, m), row in zip(nm, cf): text += s.join([str(n), str(m)] + [fmt(r, q) for q in row.ravel()]) + "\n"
    return text, dict(nm=nm, qs=qs, gh=gh, ext=(a, b, d, e), lat=90. - th, lon=180 - ((180 - ph) % 360), height=h, wolf=wo, th=th, ph=ph, head=head)

@contract("C21", 200)
def mio(c):
    """MIO: QS and GH arrays indexed by degree, order, seasonal and diurnal index; header"""
    r = c.rng; text, w = mio_file(r); c.note(text=text[:2000]); text = eol(r, text); d = parser_mio.parse_swarm_mio_file(io.StringIO(text, newline=None))
    c.same(d["nm"], w["nm"], "nm"); c.same(d["qs"], w["qs"], "qs"); c.same(d["gh"], w["gh"], "gh")
    c.require([d[q] for q in ("nmax", "mmax", "pmin", "pmax", "smin", "smax", "theta_NGP", "phi_NGP", "height", "wolf_ratio")] == w["head"], "header")
    c.close([d["lat_NGP"]], [90 - w["th"]], "pole latitude", rtol=0, atol=1e-12); c.close([np.cos(np.radians(d["lon_NGP"] - w["ph"]))], [1], "pole longitude", rtol=1e-12); c.require(-180 < d["lon_NGP"] <= 180, "pole longitude range")
    c.require((d["degree_min"], d["degree_max"]) == (w["nm"][:, 0].min(), w["nm"][:, 0].max()), "degrees")
    with File(text) as p:
        for (o, q), cf, ii in ((loader_mio.load_coeff_swarm_mio_internal(p), w["gh"], True), (loader_mio.load_coeff_swarm_mio_external(p, above_ionosphere=False), w["qs"], False)):
            c.require(o.is_internal is ii and tuple(o.ps_extent) == w["ext"], "coefficient attributes"); fs = o.get_f2fs_coeff_set(); c.same(fs[0], cf, "coefficients"); c.same(fs[1], w["nm"], "coefficient nm"); c.require(fs[2:4] == (w["ext"][2], w["ext"][0]), "offsets"); c.close(fs[4:], [2 * np.pi, 2 * np.pi / 24], "scales", rtol=1e-15)
    lines = text.rstrip().splitlines(); n = len(w["nm"])
    f = lines[-1].split(); f[1] = str(int(f[1]) + 1) if r.random() < .5 else f[1]; f[0] = str(int(f[0]) + 1)
    c.raises(lambda: parser_mio.parse_swarm_mio_file(io.StringIO("\n".join(lines[:-1] + [" ".join(f)]))), "mismatch of the QS and GH coefficients")
    c.raises(lambda: parser_mio.parse_swarm_mio_file(io.StringIO("\n".join(lines[:-1] + [lines[-1] + " 1.0"]))), "wrong number of the coefficients")
