"""Independent oracles (extended precision, textbook definitions)."""
import numpy as np
L = np.longdouble
PI = L("3.14159265358979323846264338327950288")
D2R = PI / 180
A_WGS = L("6378.137"); F_WGS = 1 / L("298.257223563"); E2 = F_WGS * (2 - F_WGS)
A_REF = 6371.2

def nmax_size(n):
    return (n + 1) * (n + 2) // 2
def idx(n, m):
    return n * (n + 1) // 2 + m
def size_to_degree(s):
    n = 0
    while nmax_size(n + 1) <= s:
        n += 1
    return n

def sincosd(x):
    """sin, cos of degrees, exact at multiples of 90."""
    x = L(x)
    k = np.rint(x / 90)
    r = (x - 90 * k) * D2R
    s, c = np.sin(r), np.cos(r)
    k = int(k) % 4
    return [(s, c), (c, -s), (-s, -c), (-c, s)][k]

def schmidt(nmax, latd):
    """(P, dP/dlat) Schmidt semi-normalised, no Condon-Shortley phase; column recursion in extended precision."""
    s, c = sincosd(latd)
    P = np.zeros((nmax + 2, nmax + 2), dtype=L)      # N(n,m) = sqrt((n-m)!/(n+m)!) P_nm
    pmm = L(1)
    for m in range(nmax + 1):
        if m:
            pmm = pmm * c * np.sqrt(L(2 * m - 1) / L(2 * m))
        P[m, m] = pmm
        if m + 1 <= nmax:
            P[m + 1, m] = s * np.sqrt(L(2 * m + 1)) * pmm
        for n in range(m + 2, nmax + 1):
            P[n, m] = ((2 * n - 1) * s * P[n - 1, m] - np.sqrt(L((n + m - 1) * (n - m - 1))) * P[n - 2, m]) / np.sqrt(L((n - m) * (n + m)))
    p = np.zeros(nmax_size(nmax), dtype=L); d = np.zeros_like(p)
    for n in range(nmax + 1):
        for m in range(n + 1):
            f = L(1) if m == 0 else np.sqrt(L(2))
            p[idx(n, m)] = f * P[n, m]
            if m == 0:
                dth = -np.sqrt(L(n * (n + 1))) * P[n, 1] if n else L(0)
            else:
                dth = (np.sqrt(L((n + m) * (n - m + 1))) * P[n, m - 1] - (np.sqrt(L((n - m) * (n + m + 1))) * P[n, m + 1] if m < n else L(0))) / 2
            d[idx(n, m)] = -f * dth
    return p, d

def schmidt_over_cos(nmax, latd):
    """m P_nm / cos(lat), finite also at the poles."""
    s, c = sincosd(latd)
    p, d = schmidt(nmax, latd)
    out = np.zeros_like(p)
    if abs(c) > L(1e-12):
        for n in range(nmax + 1):
            for m in range(1, n + 1):
                out[idx(n, m)] = m * p[idx(n, m)] / c
        return out
    for n in range(1, nmax + 1):     # |dP_n1/dlat| = n(n+1)/2 * norm at the pole
        out[idx(n, 1)] = np.sqrt(L(n * (n + 1)) / 2) * (L(1) if s > 0 else L(-1) ** (n - 1))
    return out

def sh_eval(coef, lat, lon, r, internal=True, degree=None, a=A_REF):
    """(V, dV_north, dV_east, dV_up) at a spherical location, from the definition."""
    coef = np.asarray(coef, dtype=float)
    n1 = size_to_degree(coef.shape[0])
    if degree is not None and 0 <= degree < n1:
        n1 = degree
    p, d = schmidt(n1, lat)
    pc = schmidt_over_cos(n1, lat)
    r = L(r); a = L(a)
    V = L(0); N = L(0); E = L(0); U = L(0)
    cs = [sincosd(L(lon) * m) for m in range(n1 + 1)]
    for n in range(n1 + 1):
        if not internal and n == 0:
            pass
        rr = (a / r) ** (n + 2) if internal else (r / a) ** (n - 1)
        up = -(n + 1) if internal else n
        for m in range(n + 1):
            k = idx(n, m)
            g, h = L(coef[k, 0]), L(coef[k, 1])
            sl, cl = cs[m]
            t = g * cl + h * sl
            V += rr * t * p[k]
            N += rr * t * d[k]
            U += rr * up * t * p[k]
            E += rr * (-g * sl + h * cl) * pc[k]
    return r * V, N, E, U

def geod_to_cart(lat, lon, h):
    s, c = sincosd(lat); sl, cl = sincosd(lon); h = L(h)
    n = A_WGS / np.sqrt(1 - E2 * s * s)
    return np.array([(n + h) * c * cl, (n + h) * c * sl, (n * (1 - E2) + h) * s], dtype=L)

def sph_to_cart(lat, lon, r):
    s, c = sincosd(lat); sl, cl = sincosd(lon); r = L(r)
    return np.array([r * c * cl, r * c * sl, r * s], dtype=L)

def cart_to_sph(x):
    x = np.asarray(x, dtype=L)
    p = np.hypot(x[0], x[1])
    return np.array([np.arctan2(x[2], p) / D2R, np.arctan2(x[1], x[0]) / D2R, np.sqrt(x[0]**2 + x[1]**2 + x[2]**2)], dtype=L)

def cart_to_geod(x):
    x = np.asarray(x, dtype=L)
    p = np.hypot(x[0], x[1]); z = x[2]
    lat = np.arctan2(z, p * (1 - E2))
    for _ in range(60):
        s = np.sin(lat)
        n = A_WGS / np.sqrt(1 - E2 * s * s)
        new = np.arctan2(z + E2 * n * s, p)
        if new == lat:
            break
        lat = new
    s, c = np.sin(lat), np.cos(lat)
    n = A_WGS / np.sqrt(1 - E2 * s * s)
    h = p * c + z * s - A_WGS * np.sqrt(1 - E2 * s * s)
    return np.array([lat / D2R, np.arctan2(x[1], x[0]) / D2R, h], dtype=L)

GEOD, SPH, CART = 0, 1, 2
def to_cart(x, t):
    return {GEOD: lambda: geod_to_cart(*x), SPH: lambda: sph_to_cart(*x), CART: lambda: np.asarray(x, dtype=L)}[t]()
def from_cart(x, t):
    return {GEOD: lambda: cart_to_geod(x), SPH: lambda: cart_to_sph(x), CART: lambda: np.asarray(x, dtype=L)}[t]()

def nec_basis(lat, lon):
    """rows: north, east, up unit vectors in Cartesian frame"""
    s, c = sincosd(lat); sl, cl = sincosd(lon)
    return np.array([[-s * cl, -s * sl, c], [-sl, cl, L(0)], [c * cl, c * sl, s]], dtype=L)

def frame(x, t):
    """basis of the local frame at the point with coordinates x of type t"""
    return np.eye(3, dtype=L) if t == CART else nec_basis(x[0], x[1])

def rand_point(rng, t, rmin=1100.0, rmax=60000.0, special=True):
    """coordinates of type t; mixes special latitudes / longitudes"""
    u = rng.random()
    if special and u < 0.35:
        lat = float(rng.choice([90.0, -90.0, 0.0, 45.0, -45.0, 30.0, 60.0, 89.999999, -89.9999999, 1e-7, -1e-9, 90 - 1e-10]))
    else:
        lat = float(np.degrees(np.arcsin(rng.uniform(-1, 1))))
    if special and rng.random() < 0.3:
        lon = float(rng.choice([0.0, 90.0, -90.0, 180.0, -180.0, 360.0, 270.0, 450.0, 720.5, -359.0, 1e-8]))
    else:
        lon = float(rng.uniform(-360, 360))
    r = float(np.exp(rng.uniform(np.log(rmin), np.log(rmax)))) if rng.random() < 0.4 else float(rng.uniform(6300, 7200))
    if t == SPH:
        return np.array([lat, lon, r])
    if t == GEOD:
        return np.array([lat, lon, r - 6371.2])
    return np.asarray(sph_to_cart(lat, lon, r), dtype=float)

def rand_coef(rng, nmax, kind=None):
    n = nmax_size(nmax)
    c = np.zeros((n, 2))
    kind = rng.integers(0, 4) if kind is None else kind
    c[:] = rng.normal(size=(n, 2)) * 10.0 ** rng.uniform(-1, 4)
    if kind == 0:
        keep = rng.integers(0, n)
        z = np.zeros_like(c); z[keep] = c[keep]; c = z
    elif kind == 1:
        c *= (rng.random((n, 1)) < 0.4)
    for k in range(nmax + 1):
        c[idx(k, 0), 1] = 0
    return c

def odd_layout(rng, arr):
    """same values in another memory layout / a read-only or strided view"""
    arr = np.asarray(arr, dtype=float)
    k = int(rng.integers(0, 6))
    if k == 0 or arr.ndim == 0:
        return arr.copy()
    if k == 1:
        return np.asfortranarray(arr)
    if k == 2:
        big = np.full(tuple(2 * s for s in arr.shape), np.nan)
        v = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        v[...] = arr
        return v
    if k == 3:
        v = arr[tuple(slice(None, None, -1) for _ in arr.shape)].copy()
        return v[tuple(slice(None, None, -1) for _ in arr.shape)]
    if k == 4:
        v = arr.copy(); v.flags.writeable = False
        return v
    v = np.moveaxis(np.ascontiguousarray(np.moveaxis(arr, -1, 0)), 0, -1)
    return v

def time_valid_check():
    p, d = schmidt(3, 30.0)
    return p, d
