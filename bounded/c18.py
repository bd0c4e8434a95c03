from core import contract
import numpy as np, orc
from eoxmagmod import (GEODETIC_ABOVE_WGS84 as GD, GEOCENTRIC_SPHERICAL as SP, GEOCENTRIC_CARTESIAN as CA, convert, sheval,
  get_dipole_rotation_matrix, convert_to_dipole, vrot_from_dipole, vrotate, sheval_dipole)
from eoxmagmod import _pymm
from eoxmagmod.dipole import rotate_vectors_from_dipole
from eoxmagmod.magnetic_model.model import DipoleSphericalHarmomicGeomagneticModel as DM
from c16 import tree, loc, frames, sample_times, options
from c07 import tup

def pole(r):
    return (float(r.choice([90., -90., 0., 80.65, r.uniform(-90, 90), r.uniform(-90, 90)])), float(r.choice([0., 180., -72.68, -360., 270., r.uniform(-360, 360), r.uniform(-360, 360)])))

def refmat(la, lo):
    """columns: dipole axes in the geocentric frame: Z at the pole, Y = east at the pole, X = Y x Z"""
    s, k = orc.sincosd(la); sl, cl = orc.sincosd(lo)
    z = np.array([k * cl, k * sl, s]); y = np.array([-sl, cl, orc.L(0)]); return np.stack([np.cross(y, z), y, z], -1)

@contract("C18", 1000)
def rotation(c):
    """rigid rotation mapping the pole to the dipole north pole and keeping the radius"""
    r = c.rng; la, lo = pole(r); c.note(pole=(la, lo))
    R = get_dipole_rotation_matrix(la, lo); W = np.asarray(refmat(la, lo), dtype=float)
    c.close(R, W, "rotation matrix", rtol=0, atol=3e-15)
    c.close(R.T @ R, np.eye(3), "orthogonal", rtol=0, atol=4e-15); c.close(np.linalg.det(R), 1, "determinant", rtol=0, atol=5e-15)
    d = convert_to_dipole([la, lo, 7000.], la, lo)
    c.close(d[0], 90, "pole to the dipole pole", rtol=0, atol=2e-6); c.close(d[2], 7000, "radius")
    cti = int(r.choice([GD, SP, CA])); x = loc(r, cti, 3); c.note(x=x, cti=cti)
    d = convert_to_dipole(x, la, lo, cti); X = np.array([orc.to_cart(q, cti) for q in x]).astype(float)
    c.close(np.array([orc.sph_to_cart(*q) for q in d]).astype(float), X @ W, "rotated position", rtol=0, atol=3e-4 if abs(d[:, 0]).max() > 89.9 else 1e-7)
    c.close(d[:, 2], np.sqrt((X ** 2).sum(-1)), "radius is kept", rtol=1e-11, atol=1e-7)
    c.same(convert_to_dipole(x[1], la, lo, cti), d[1], "single point") if False else c.close(convert_to_dipole(x[1], la, lo, cti), d[1], "single point", rtol=1e-13, atol=1e-11)
    if cti == SP: c.same(convert_to_dipole(x, la, lo), d, "default type")
    c.close(convert_to_dipole(convert(x, cti, CA), la, lo, CA)[:, 2], d[:, 2], "input type", rtol=1e-12)

@contract("C18", 800)
def vectors(c):
    """rotation back from the dipole frame restores the physical vector in every output frame"""
    r = c.rng; la, lo = pole(r); cti, cto = frames(r); x = loc(r, cti, 3); v = r.normal(size=(3, 3)) * 100
    c.note(pole=(la, lo), x=x, v=v, cti=cti, cto=cto); W = refmat(la, lo)
    d = convert_to_dipole(x, la, lo, cti)
    got = rotate_vectors_from_dipole(v, la, lo, d, x, cti, cto)
    for k in range(3):
        phys = W @ (orc.nec_basis(d[k, 0], d[k, 1]).T @ v[k])
        y = orc.from_cart(orc.to_cart(x[k], cti), cto) if cti != cto else x[k]
        if cto != CA and cti != cto and abs(float(y[0])) > 89.99: y = convert(x[k], cti, cto)
        w = np.asarray(orc.frame(y, cto) @ phys, dtype=float)
        near = cto != CA and abs(float(y[0])) > 89.9
        c.close(got[k], w, "vector", rtol=0, atol=300 * (3e-5 if near else 1e-9))
        c.close(np.linalg.norm(got[k]), np.linalg.norm(v[k]), "norm", rtol=1e-12)
    la_, lo_ = (None, None) if cto == CA else (convert(x, cti, cto)[:, 0], convert(x, cti, cto)[:, 1])
    c.same(vrot_from_dipole(v, la, lo, d[:, 0], d[:, 1], la_, lo_, cto), got, "vrot_from_dipole")
    if cto == CA: c.same(vrot_from_dipole(v, la, lo, d[:, 0], d[:, 1]), got, "default output")

def physical(x, cti, field, cto, y=None):
    y = convert(x, cti, cto) if cto != CA else None
    return np.array([np.asarray(orc.frame(y[k] if y is not None else None, cto).T @ field[k], dtype=float) for k in range(len(x))])

@contract("C18", 500)
def sheval_in_dipole(c):
    """sheval_dipole is the expansion evaluated at the rotated location"""
    r = c.rng; la, lo = pole(r); cti, cto = frames(r); n = int(r.integers(1, 7)); cf = orc.rand_coef(r, n); x = loc(r, cti, 3)
    kw = dict(is_internal=bool(r.random() < .7), degree=int(r.choice([-1, n, n - 1, 0]))); sg = r.normal(size=3) if r.random() < .4 else 1.0; sp = float(r.normal()) if r.random() < .4 else 1.0
    c.note(pole=(la, lo), x=x, cti=cti, cto=cto, coef=cf, sg=sg, sp=sp, **kw)
    mode = int(r.choice([_pymm.GRADIENT, _pymm.POTENTIAL, _pymm.POTENTIAL_AND_GRADIENT]))
    res = sheval_dipole(x, cf, la, lo, cti, cto, mode=mode, scale_gradient=sg, scale_potential=sp, **kw)
    d = convert_to_dipole(x, la, lo, cti)
    V, G = sheval(d, cf, coord_type_in=SP, coord_type_out=SP, mode=_pymm.POTENTIAL_AND_GRADIENT, **kw)
    W = np.asarray(refmat(la, lo), dtype=float)
    y = convert(x, cti, cto)
    want = np.array([np.asarray(orc.frame(y[k], cto) @ (W @ (orc.nec_basis(d[k, 0], d[k, 1]).T @ G[k])), dtype=float) for k in range(3)]) * sg
    t = tup(res)
    if mode != _pymm.GRADIENT: c.close(t[0], V * sp, "potential", rtol=1e-10, atol=1e-10 * np.abs(V).max())
    if mode != _pymm.POTENTIAL: c.close(t[-1], want, "gradient", rtol=1e-8, atol=1e-8 * (np.abs(G).max() * np.max(np.abs(sg)) + 1e-300))

@contract("C18", 500)
def model(c):
    """a dipole model gives the expansion at the rotated location, in every frame, NaN outside of the validity"""
    r = c.rng; la, lo = pole(r); cti, cto = frames(r); o = tree(r, 1); m = DM(o, (la, lo)); opt = options(r)
    t = np.concatenate([sample_times(r, o, 5), [np.nan]]); x = loc(r, cti, 6); kw = dict(input_coordinate_system=cti, output_coordinate_system=cto)
    c.note(pole=(la, lo), x=x, cti=cti, cto=cto, time=t, opt=opt, validity=o.validity)
    got = m.eval(t, x, **kw, **opt); d = convert_to_dipole(x, la, lo, cti); W = np.asarray(refmat(la, lo), dtype=float); y = convert(x, cti, cto)
    o2 = dict(opt); sc = o2.pop("scale", 1.0)
    for k, q in enumerate(t):
        if not (o.validity[0] <= q <= o.validity[1]): c.same(got[k], [np.nan] * 3, "outside of the validity"); continue
        cf, dg = o(q, **o2); G = -sheval(d[k], cf, degree=dg, is_internal=o.is_internal, coord_type_in=SP, coord_type_out=SP)
        w = np.asarray(orc.frame(y[k], cto) @ (W @ (orc.nec_basis(d[k, 0], d[k, 1]).T @ G)), dtype=float) * sc
        c.close(got[k], w, "field at %r" % q, rtol=1e-8, atol=1e-8 * (np.abs(G).max() + 100) * np.max(np.abs(sc)))
        c.close(m.eval(float(q), x[k], **kw, **opt), got[k], "scalar", rtol=1e-9, atol=1e-9 * (np.abs(G).max() + 100) * np.max(np.abs(sc)))
    alt = (cti + 1) % 3; xa = convert(x, cti, alt); g2 = m.eval(t, xa, input_coordinate_system=alt, output_coordinate_system=CA, **{k: v for k, v in opt.items() if k != "scale"})
    g1 = m.eval(t, x, input_coordinate_system=cti, output_coordinate_system=CA, **{k: v for k, v in opt.items() if k != "scale"})
    c.close(g2, g1, "input systems", rtol=1e-6, atol=1e-6 * (np.nanmax(np.abs(g1)) if np.isfinite(g1).any() else 1))
