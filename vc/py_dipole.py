"""Python functions: dipole frame (C18), rotation of vectors and norms (C11)."""
from py_pymm import *

def matrix(lat, lon):
    """columns: the axes of the dipole frame (x towards the prime meridian of the dipole frame, z to the pole)"""
    s = lambda x: app("SIN", x * DEG); c = lambda x: app("COS", x * DEG)
    return [[s(lat) * c(lon), real(0) - s(lon), c(lat) * c(lon)], [s(lat) * s(lon), c(lon), c(lat) * s(lon)], [real(0) - c(lat), real(0), s(lat)]]
def todip(p, lat, lon, cin):
    """spherical coordinates in the dipole frame"""
    M = matrix(lat.v, lon.v); q = conv(cin, CART, p); n = or_(lat.n, lon.n); out = []
    for j in range(3):
        t = None; nn = n
        for i in range(3): t = q[i].v * M[i][j] if t is None else t + q[i].v * M[i][j]; nn = disj(nn, q[i].n)
        out.append(R(t, nn))
    return conv(CART, SPH, out)
def fromdip(v, lat, lon, latd, lond):
    """Cartesian components of the vector given along north, east, up at the point (latd, lond) of the dipole frame"""
    M = matrix(lat.v, lon.v); w = rot("sph2cart", v, latd, lond); out = []
    for j in range(3):
        t = None; nn = or_(lat.n, lon.n)
        for i in range(3): t = w[i].v * M[j][i] if t is None else t + w[i].v * M[j][i]; nn = disj(nn, w[i].n)
        out.append(R(t, nn))
    return out
def pole(): return R(rvar("lat_ngp")), R(rvar("lon_ngp"))
def points(name, shape, nan=True): return arr(name, tuple(shape) + (3,), nan)
def same3(label, out, want, g, shape):
    out = asarray(out)
    if same_shape("shape", out, tuple(shape) + (3,)):
        for c in range(3): same("%s, component %d" % (label, c), out.elem(tuple(g) + (c,)), want[c])
RANKS = range(3)
def dipole(res, budget):
    def rotation():
        m = load("eoxmagmod.dipole_coords"); lat, lon = pole()
        M = asarray(m.get_dipole_rotation_matrix(lat, lon)); W = matrix(lat.v, lon.v)
        if same_shape("shape", M, (3, 3)):
            for i in range(3):
                for j in range(3): same("element %d %d" % (i, j), M.elem((i, j)), R(W[i][j]))
    verify(res, "dipole_coords.get_dipole_rotation_matrix", [("", ())], rotation)
    def todipole(r, cin):
        m = load("eoxmagmod.dipole_coords"); shape, g = extents(r); lat, lon = pole(); x = points("x", shape)
        a = () if cin is None else (cin,)
        same3("spherical coordinates in the dipole frame", m.convert_to_dipole(x, lat, lon, *a), todip(comps(x.snap(), g), lat, lon, SPH if cin is None else cin), g, shape)
    verify(res, "dipole_coords.convert_to_dipole", [("rank %d, type %s" % (r, c), (r, c)) for r in RANKS for c in (None, 0, 1, 2)], todipole)
    def from_(r, cout):
        m = load("eoxmagmod.dipole_coords"); shape, g = extents(r); lat, lon = pole(); v = points("v", shape)
        ld, od, lo, oo = [arr(k, shape) for k in ("latd", "lond", "lato", "lono")]
        a = dict(coord_type_out=cout) if cout is not None else {}
        out = m.vrot_from_dipole(v, lat, lon, ld, od, lo, oo, **a)
        w = fromdip(comps(v.snap(), g), lat, lon, ld.elem(g), od.elem(g))
        if cout in (0, 1): w = rot("cart2sph", w, lo.elem(g), oo.elem(g))
        same3("components in the output frame", out, w, g, shape)
    verify(res, "dipole_coords.vrot_from_dipole", [("rank %d, type %s" % (r, c), (r, c)) for r in RANKS for c in (None, 0, 1, 2)], from_)
    def rotv(r, cin, cout):
        m = load("eoxmagmod.dipole"); shape, g = extents(r); lat, lon = pole(); v = points("v", shape); d = points("d", shape); x = points("x", shape)
        out = m.rotate_vectors_from_dipole(v, lat, lon, d, x, cin, cout)
        same3("components in the output frame", out, back(comps(v.snap(), g), lat, lon, comps(d.snap(), g), comps(x.snap(), g), cin, cout), g, shape)
    verify(res, "dipole.rotate_vectors_from_dipole", [("rank %d, %d to %d" % (r, a, b), (r, a, b)) for r in RANKS for a in range(3) for b in range(3)], rotv)
    def she(r, cin, cout, mode):
        m = load("eoxmagmod.dipole"); shape, g = extents(r); lat, lon = pole(); x = points("x", shape)
        co = Tok("coefficients"); deg = I(ivar("degree")); inn = B(z3.Bool("internal")); sp, sg = R(rvar("scale_potential")), R(rvar("scale_gradient"))
        out = m.sheval_dipole(x, co, lat, lon, coord_type_in=cin, coord_type_out=cout, mode=mode, is_internal=inn, degree=deg, scale_potential=sp, scale_gradient=sg)
        p = comps(x.snap(), g); q = todip(p, lat, lon, cin)
        extra = [co.v, real(SPH), real(SPH), key(inn), key(deg)]
        pot = op1("*", field("SH", "p", [], q, extra), sp)
        gr = [op1("*", w, sg) for w in back([field("SH", "g%d" % c, [], q, extra) for c in range(3)], lat, lon, q, p, cin, cout)]
        if mode == BOTH:
            if not isinstance(out, tuple) or len(out) != 2: fail("post", "two outputs", repr(out)); return
            P_, G_ = out
        else: P_ = G_ = out
        if mode & POT:
            if same_shape("shape of the potential", P_, shape): same("potential at the rotated point", asarray(P_).elem(g), pot)
        if mode & GRAD: same3("gradient at the rotated point in the output frame", G_, gr, g, shape)
    verify(res, "dipole.sheval_dipole", [("rank %d, %d to %d, mode %d" % (r, a, b, k), (r, a, b, k)) for r in RANKS for a in range(3) for b in range(3) for k in (1, 2, 3)], she)
def back(v, lat, lon, d, x, cin, cout):
    w = fromdip(v, lat, lon, d[0], d[1])
    if cout == CART: return w
    o = conv(cin, cout, x); return rot("cart2sph", w, o[0], o[1])

def frames(res, budget):
    """C11: vrotate, vnorm, vincdecnorm"""
    def vrotate(r, cin, cout):
        m = load("eoxmagmod.util"); shape, g = extents(r); v = points("v", shape); a = points("a", shape); b = points("b", shape)
        out = m.vrotate(v, a, b, cin, cout)
        p, q, w = comps(a.snap(), g), comps(b.snap(), g), comps(v.snap(), g)
        if cin == cout: want = w
        elif cout == CART: want = rot("sph2cart", w, p[0], p[1])
        elif cin == CART: want = rot("cart2sph", w, q[0], q[1])
        else: want = rot("sph2geod", w, op1("-", q[0], p[0]))
        same3("components in the output frame", out, want, g, shape)
    verify(res, "util.vrotate", [("rank %d, %d to %d" % (r, a, b), (r, a, b)) for r in RANKS for a in range(3) for b in range(3)], vrotate)
    def vnorm(r):
        m = load("eoxmagmod.util"); shape, g = extents(r); v = points("v", shape); out = asarray(m.vnorm(v)); x = comps(v.snap(), g)
        if same_shape("shape", out, shape): same("root of the sum of squares", out.elem(g), R(app("SQRT", x[0].v * x[0].v + x[1].v * x[1].v + x[2].v * x[2].v), or_(x[0].n, x[1].n, x[2].n)))
    verify(res, "util.vnorm", [("rank %d" % r, (r,)) for r in RANKS], vnorm)
    def vinc(r):
        m = load("eoxmagmod.util"); shape, g = extents(r); v = points("v", shape); out = m.vincdecnorm(v); x = conv(CART, SPH, comps(v.snap(), g))
        for k, (n, w) in enumerate((("inclination: minus the latitude of the direction", op1("*", -1, x[0])), ("declination: its longitude", x[1]), ("intensity", x[2]))):
            if same_shape("shape", out[k], shape): same(n, asarray(out[k]).elem(g), w)
    verify(res, "util.vincdecnorm", [("rank %d" % r, (r,)) for r in RANKS], vinc)
