"""Rational-function normal form of real terms: the 'ring' back end.

rat(t) = num / product(factors); atoms are variables, array elements and spec-function applications.
Reductions: SQ(n)^2 = n, SQRT(e)^2 = e, COS(x)^2 = 1 - SIN(x)^2, CBRT(e)^3 = e.  All denominators are
assumed non-zero; the non-zero obligations are generated separately by the executor.
"""
from fractions import Fraction
from terms import *

ATID = {}; ATRT = []
def aid(key, term):
    if key not in ATID:
        ATID[key] = len(ATRT); ATRT.append(term)
    return ATID[key]

# polynomials: dict monomial -> Fraction ; monomial: tuple of (atom, exponent) sorted
def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))
class TooBig(Exception): pass
LIMIT = 200000
def pmul(p, q):
    if len(p) > len(q): p, q = q, p
    if len(p) * len(q) > LIMIT: raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
ONE = {(): Fraction(1)}
def pconst(c): return {(): Fraction(c)} if c else {}
def pkey(p): return tuple(sorted(p.items()))

class Rat:
    __slots__ = ("n", "d")
    def __init__(self, n, d=None): self.n = n; self.d = d or {}   # d: {pkey: exp}
    def key(self): return (pkey(self.n), tuple(sorted(self.d.items())))

def expand(d):
    r = ONE
    for k, e in d.items():
        for _ in range(e): r = pmul(r, dict(k))
    return r

def ratadd(a, b, k=1):
    if a.d == b.d: return Rat(padd(a.n, b.n, k), a.d)
    l = dict(a.d)
    for f, e in b.d.items(): l[f] = max(l.get(f, 0), e)
    na = pmul(a.n, expand({f: e - a.d.get(f, 0) for f, e in l.items() if e > a.d.get(f, 0)}))
    nb = pmul(b.n, expand({f: e - b.d.get(f, 0) for f, e in l.items() if e > b.d.get(f, 0)}))
    return Rat(padd(na, nb, k), l)

def cancel(n, d):
    """cancel single-atom factors"""
    if not d or not n: return n, ({} if not n else d)
    d = dict(d)
    for f in list(d):
        if len(f) == 1 and len(f[0][0]) == 1 and f[0][1] == 1 and f[0][0][0][1] == 1:
            at = f[0][0][0][0]
            e = min(min(dict(m).get(at, 0) for m in n), d[f])
            if e:
                r = {}
                for m, c in n.items():
                    dm = dict(m); dm[at] -= e
                    if not dm[at]: del dm[at]
                    r[tuple(sorted(dm.items()))] = c
                n = r; d[f] -= e
                if not d[f]: del d[f]
    return n, d

def ratmul(a, b):
    n = pmul(a.n, b.n)
    d = dict(a.d)
    for f, e in b.d.items(): d[f] = d.get(f, 0) + e
    # cancel whole factors
    if a.d or b.d:
        for x, other in ((a.n, b.d), (b.n, a.d)):
            k = None
        n, d = cancel(n, d)
    return Rat(n, d)

def ratinv(a):
    if not a.n: raise ZeroDivisionError()
    n = expand(a.d); c = Fraction(1); d = {}
    if len(a.n) == 1:
        (m, c), = a.n.items()
        for at, e in m: d[pkey({((at, 1),): Fraction(1)})] = e
    else:
        lead = pkey(a.n)[-1][1]; c = lead
        d[pkey({m: v / lead for m, v in a.n.items()})] = 1
    return Rat({m: v / c for m, v in n.items()}, d)

def divexact(a, b):
    """a/b where numerators agree up to a constant"""
    q = ratmul(a, ratinv(b))
    return q

def ipoly(x):
    """integer polynomial as a real polynomial"""
    p = {}
    for m, c in terms_of(x).items():
        k = ()
        for a in m: k = mmul(k, ((aid(("i", a), ("i", a)), 1),))
        p[k] = Fraction(c)
    return p

def canon_arg(x):
    if isinstance(x, RT):
        return ("R", rat(x).key())
    if isinstance(x, IP): return ("I", x.key())
    return ("C", x)

REDUCE = {}     # atom id -> (power, Rat)
def rat(t):
    if isinstance(t, (int, float, Fraction)): return Rat(pconst(frac(t)))
    if isinstance(t, IP): return Rat(ipoly(t))
    if t._r is not None: return t._r
    o, a = t.op, t.a
    if o == "const": r = Rat(pconst(a[0]))
    elif o == "int": r = Rat(ipoly(a[0]))
    elif o == "add": r = ratadd(rat(a[0]), rat(a[1]))
    elif o == "neg": r = Rat(padd({}, rat(a[0]).n, -1), rat(a[0]).d)
    elif o == "mul": r = ratmul(rat(a[0]), rat(a[1]))
    elif o == "div": r = ratmul(rat(a[0]), ratinv(rat(a[1])))
    elif o == "var": r = at1(aid(("v", a[0]), t))
    elif o == "sel": r = at1(aid(("s", a[0], a[1].key() if isinstance(a[1], IP) else a[1]), t))
    elif o == "ite": r = at1(aid(("t", t.id), t))
    elif o == "app": r = rat_app(t)
    else: raise Exception(o)
    r = reduce(r)
    t._r = r
    return r

def at1(i): return Rat({((i, 1),): Fraction(1)})
def rat_app(t):
    f, args = t.a[0], t.a[1:]
    if f == "SQRT":
        e = rat(args[0])
        c = const_of(e)
        if c is not None and c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator: return Rat(pconst(Fraction(n, d)))
        # sqrt of a rational function of integers: SQ(num)/SQ(den)
        k = ("app", f, ("R", e.key()))
        i = aid(k, t)
        REDUCE.setdefault(i, (2, e))
        return at1(i)
    if f == "SQ":
        n = args[0]
        if not isinstance(n, IP):
            import math
            r = math.isqrt(n) if n >= 0 else 0
            if r * r == n: return Rat(pconst(r))
        # SQ(c*x) with a square factor
        if isinstance(n, IP):
            import math
            g = 0
            for c in n.t.values(): g = math.gcd(g, c)
            if g > 1:
                return ratmul(rat(app("SQ", g)), rat(app("SQ", mk({m: c // g for m, c in n.t.items()}))))
        elif n > 3:
            import math
            s = max(k for k in range(1, math.isqrt(n) + 1) if n % (k * k) == 0)
            if s > 1: return ratmul(Rat(pconst(s)), rat(app("SQ", n // (s * s))))
        i = aid(("app", f, canon_arg(n)), t)
        REDUCE.setdefault(i, (2, rat(real(n))))
        return at1(i)
    if f in ("SIN", "COS"):
        e = rat(args[0])
        c = const_of(e)
        if c == 0: return Rat(pconst(1 if f == "COS" else 0))
        # parity: normalise the sign of the argument
        lead = pkey(e.n)[-1][1] if e.n else 1
        sign = 1
        if lead < 0:
            e = Rat(padd({}, e.n, -1), e.d); sign = -1
        ks = ("app", "SIN", ("R", e.key())); kc = ("app", "COS", ("R", e.key()))
        base = args[0] if sign > 0 else rneg(args[0])
        s = aid(ks, app("SIN", base)); cc = aid(kc, app("COS", base))
        if cc not in REDUCE: REDUCE[cc] = (2, Rat(padd(ONE, {((s, 2),): Fraction(1)}, -1)))
        if f == "COS": return at1(cc)
        return Rat({((s, 1),): Fraction(sign)})
    i = aid(("app", f) + tuple(canon_arg(x) for x in args), t)
    if f == "CBRT": REDUCE.setdefault(i, (3, rat(args[0])))
    return at1(i)

def const_of(r):
    if r.d: return None
    if not r.n: return Fraction(0)
    if len(r.n) == 1 and () in r.n: return r.n[()]
    return None

def reduce(r):
    for _ in range(200):
        hit = None
        for m in r.n:
            for a, e in m:
                if a in REDUCE and e >= REDUCE[a][0]: hit = a; break
            if hit is not None: break
        if hit is None: break
        p, val = REDUCE[hit]
        lo, hi = {}, {}
        for m, c in r.n.items():
            dm = dict(m); e = dm.get(hit, 0)
            if e >= p:
                dm[hit] = e - p
                if not dm[hit]: del dm[hit]
                hi[tuple(sorted(dm.items()))] = c
            else: lo[m] = c
        h = ratmul(Rat(hi), val)
        r2 = ratadd(Rat(lo), h)
        d = dict(r.d)
        for f, e in r2.d.items(): d[f] = d.get(f, 0) + e
        n, d = cancel(r2.n, d)
        r = Rat(n, d)
    else:
        raise TooBig()
    return r

def rzero(t):
    """t == 0 as a rational function"""
    return not rat(t).n

def atoms_of(r):
    s = set()
    for m in r.n:
        for a, e in m: s.add(a)
    return s
