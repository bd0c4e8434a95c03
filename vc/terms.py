"""Terms of the verifier: canonical integer polynomials (IP), real terms (RT), conversion to z3.

Everything also accepts plain Python numbers, so that the same contracts and the same executor run
concretely (int / float) and symbolically.
"""
import math, itertools
from fractions import Fraction
import z3

# ---------------------------------------------------------------- integers
ATOMS = []           # atom number -> (z3 Int expression, description)
ATOM_OF = {}         # key -> atom number

def atom(key, expr):
    if key not in ATOM_OF:
        ATOM_OF[key] = len(ATOMS)
        ATOMS.append((expr, key))
    return ATOM_OF[key]

class IP:
    """Canonical polynomial with integer (or rational) coefficients over integer atoms."""
    __slots__ = ("t", "_h", "_z")
    def __init__(self, t):
        self.t = t; self._h = None; self._z = None
    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h
    def __hash__(self): return hash(self.key())
    def same(self, o): return isinstance(o, IP) and self.key() == o.key()
    def const(self): return self.t.get((), 0)
    def degree(self): return max((len(m) for m in self.t), default=0)
    def z(self):
        if self._z is None:
            terms = []
            for m, c in self.key():
                f = [ATOMS[a][0] for a in m]
                if not f: terms.append(z3.IntVal(c)); continue
                p = f[0]
                for q in f[1:]: p = p * q
                terms.append(p if c == 1 else z3.IntVal(c) * p)
            self._z = terms[0] if len(terms) == 1 else z3.Sum(terms) if terms else z3.IntVal(0)
            ZIP[self._z.get_id()] = (self._z, self)
        return self._z
    def __add__(self, o): return iadd(self, o)
    def __radd__(self, o): return iadd(o, self)
    def __sub__(self, o): return iadd(self, imul(-1, o))
    def __rsub__(self, o): return iadd(o, imul(-1, self))
    def __mul__(self, o): return imul(self, o)
    def __rmul__(self, o): return imul(o, self)
    def __neg__(self): return imul(-1, self)
    def __repr__(self):
        return "+".join(("%s*" % c if c != 1 or not m else "") + "*".join(str(ATOMS[a][1]) for a in m) if m else str(c) for m, c in self.key()) or "0"

ZIP = {}            # z3 ast id -> (ast, IP)

def iconst(c): return c
def mk(t):
    t = {m: c for m, c in t.items() if c != 0}
    if not t: return 0
    if len(t) == 1 and () in t: return t[()]
    return IP(t)

def terms_of(x): return x.t if isinstance(x, IP) else ({(): int(x)} if x else {})
def isint(x): return isinstance(x, (IP, int)) and not isinstance(x, bool)

def iadd(a, b):
    if isinstance(a, RT) or isinstance(b, RT) or isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
        return radd(real(a), real(b))
    if not isinstance(a, IP) and not isinstance(b, IP): return a + b
    t = dict(terms_of(a))
    for m, c in terms_of(b).items(): t[m] = t.get(m, 0) + c
    return mk(t)

def imul(a, b):
    if isinstance(a, RT) or isinstance(b, RT) or isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
        return rmul(real(a), real(b))
    if not isinstance(a, IP) and not isinstance(b, IP): return a * b
    t = {}
    for m, c in terms_of(a).items():
        for n, d in terms_of(b).items():
            k = tuple(sorted(m + n)); t[k] = t.get(k, 0) + c * d
    return mk(t)

def ivar(name):
    return IP({(atom(name, z3.Int(name)),): 1})

_fresh = itertools.count()
def fresh_name(base): return "%s!%d" % (base, next(_fresh))
def fresh_int(base): return ivar(fresh_name(base))

def zi(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    return x.z() if isinstance(x, IP) else z3.IntVal(x) if isinstance(x, int) else x

def iz(expr, desc=None):
    """IP of an arbitrary z3 integer expression (opaque atom)"""
    if z3.is_int_value(expr): return expr.as_long()
    i = ZIP.get(expr.get_id())
    if i is not None: return i[1]
    return IP({(atom(("z", expr.sexpr()), expr),): 1})

FLOORS = {}          # atom -> real argument of the floor
def floorint(v, z):
    """floor of the real term v (z: its z3 expression)"""
    r = iz(z3.ToInt(z))
    if isinstance(r, IP):
        (a,), = r.t.keys(); FLOORS[a] = v
    return r

TRIF = z3.Function("TRI", z3.IntSort(), z3.IntSort())
TRI_ARGS = {}        # atom -> IP argument
def TRI(x):
    """x*(x+1)/2"""
    if not isinstance(x, IP): return x * (x + 1) // 2
    c = x.const()
    base = mk({m: k for m, k in x.t.items() if m != ()})
    lead = base.key()[-1][1]
    if lead < 0:        # TRI(-y) = TRI(y) - y ; TRI(c + x) with x = -y: TRI(x) = TRI(-x-1)
        return TRI(imul(-1, x) - 1)
    a = atom(("TRI", base.key()), TRIF(base.z()))
    TRI_ARGS[a] = base
    return IP({(a,): 1}) + c * base + (c * (c + 1)) // 2

def half(e):
    """e/2 for e = y*(y+1), else None"""
    if not isinstance(e, IP): return None
    if e.degree() != 2: return None
    sq = {}
    lin = {}
    for m, c in e.t.items():
        if len(m) == 2 and m[0] == m[1]:
            r = math.isqrt(c) if c > 0 else -1
            if r < 0 or r * r != c: return None
            sq[m[0]] = r
        elif len(m) > 2: return None
    if not sq: return None
    atoms = sorted(sq)
    for signs in itertools.product((1, -1), repeat=len(atoms) - 1):
        L = mk({(a,): s * sq[a] for a, s in zip(atoms, (1,) + signs)})
        # e = (L+k)(L+k+1) = L^2 + (2k+1) L + k(k+1)
        a0 = atoms[0]
        lc = e.t.get((a0,), 0)
        if lc % sq[a0]: continue
        q = lc // sq[a0]
        if q % 2 == 0: continue
        k = (q - 1) // 2
        y = L + k
        if isinstance(y * (y + 1) - e, int) and y * (y + 1) - e == 0: return TRI(y)
    return None

# ---------------------------------------------------------------- reals
class RT:
    """Hash-consed real term."""
    __slots__ = ("op", "a", "id", "_z", "_r")
    table = {}
    def __repr__(self): return show(self)
    def __add__(self, o): return radd(self, real(o))
    def __radd__(self, o): return radd(real(o), self)
    def __sub__(self, o): return radd(self, rneg(real(o)))
    def __rsub__(self, o): return radd(real(o), rneg(self))
    def __mul__(self, o): return rmul(self, real(o))
    def __rmul__(self, o): return rmul(real(o), self)
    def __truediv__(self, o): return rdiv(self, real(o))
    def __rtruediv__(self, o): return rdiv(real(o), self)
    def __neg__(self): return rneg(self)

def akey(x):
    if isinstance(x, RT): return ("r", x.id)
    if isinstance(x, IP): return ("i", x.key())
    if isinstance(x, z3.ExprRef): return ("z", x.get_id())
    return ("c", x)

KEEPZ = []
def rt(op, *a):
    k = (op,) + tuple(akey(x) for x in a)
    r = RT.table.get(k)
    if r is None:
        r = RT(); r.op = op; r.a = a; r.id = len(RT.table); r._z = None; r._r = None
        RT.table[k] = r
        for x in a:
            if isinstance(x, z3.ExprRef): KEEPZ.append(x)
    return r

def frac(x):
    if isinstance(x, Fraction): return x
    if isinstance(x, int): return Fraction(x)
    if isinstance(x, float): return Fraction(repr(x)) if math.isfinite(x) else None
    return None

CONCRETE = [False]
def real(x):
    if isinstance(x, RT): return x
    if isinstance(x, IP): return rt("int", x)
    if isinstance(x, bool): x = int(x)
    if isinstance(x, float) and CONCRETE[0]: return x
    return rt("const", frac(x))

def rvar(name): return rt("var", name)
def fresh_real(base): return rvar(fresh_name(base))
def sel(base, idx): return rt("sel", base, idx)
def app(name, *args): return rt("app", name, *args)
def isconst(x, v=None): return isinstance(x, RT) and x.op == "const" and (v is None or x.a[0] == v)

def num(x): return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)
def radd(a, b):
    if num(a) and num(b): return a + b
    a, b = real(a), real(b)
    if num(a) or num(b):
        a = rt("const", frac(a)) if num(a) else a; b = rt("const", frac(b)) if num(b) else b
    if a.op == "const" and b.op == "const": return rt("const", a.a[0] + b.a[0])
    if isconst(a, 0): return b
    if isconst(b, 0): return a
    return rt("add", a, b)
def rmul(a, b):
    if num(a) and num(b): return a * b
    a, b = real(a), real(b)
    if num(a) or num(b):
        a = rt("const", frac(a)) if num(a) else a; b = rt("const", frac(b)) if num(b) else b
    if a.op == "const" and b.op == "const": return rt("const", a.a[0] * b.a[0])
    if isconst(a, 1): return b
    if isconst(b, 1): return a
    if isconst(a, 0) or isconst(b, 0): return rt("const", Fraction(0))
    return rt("mul", a, b)
def rneg(a):
    if num(a): return -a
    if a.op == "const": return rt("const", -a.a[0])
    return rt("neg", a)
def rdiv(a, b):
    if num(a) and num(b):
        if isinstance(a, float) or isinstance(b, float):
            try: return a / b
            except ZeroDivisionError: return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
        return Fraction(a) / Fraction(b)
    a, b = real(a), real(b)
    if isconst(b, 1): return a
    if a.op == "const" and b.op == "const" and b.a[0] != 0: return rt("const", a.a[0] / b.a[0])
    return rt("div", a, b)
def rite(c, a, b):
    if isinstance(c, bool): return a if c else b
    a, b = real(a), real(b)
    if a is b: return a
    return rt("ite", c, a, b)

def zr(x):
    if num(x): return z3.RealVal(str(frac(x)))
    if isinstance(x, IP): return z3.ToReal(zi(x))
    if x._z is None: x._z = _zr(x)
    return x._z

SELS = {}     # z3 ast id of base(idx) -> (ast, base, idx IP)
APPS = {}     # z3 ast id of f(args) -> (ast, RT)
def _zr(x):
    o, a = x.op, x.a
    if o == "const": return z3.RealVal(str(a[0]))
    if o == "var": return z3.Real(a[0])
    if o == "int": return z3.ToReal(zi(a[0]))
    if o == "add": return zr(a[0]) + zr(a[1])
    if o == "mul": return zr(a[0]) * zr(a[1])
    if o == "neg": return -zr(a[0])
    if o == "div": return zr(a[0]) / zr(a[1])
    if o == "ite": return z3.If(a[0], zr(a[1]), zr(a[2]))
    if o == "sel":
        e = z3.Function(a[0], z3.IntSort(), z3.RealSort())(zi(a[1]))
        SELS[e.get_id()] = (e, a[0], a[1]); return e
    if o == "app":
        zs = [zr(v) if isinstance(v, (RT, Fraction)) else zi(v) for v in a[1:]]
        e = z3.Function(a[0], *[v.sort() for v in zs], z3.RealSort())(*zs)
        APPS[e.get_id()] = (e, x); return e
    raise Exception(o)

def show(x, d=0):
    if not isinstance(x, RT): return repr(x)
    o, a = x.op, x.a
    if d > 12: return "..."
    s = lambda y: show(y, d + 1)
    if o == "const": return str(a[0])
    if o == "var": return a[0]
    if o == "int": return "(" + repr(a[0]) + ")"
    if o in ("add", "mul", "div"): return "(" + s(a[0]) + {"add": "+", "mul": "*", "div": "/"}[o] + s(a[1]) + ")"
    if o == "neg": return "-" + s(a[0])
    if o == "ite": return "ite(%s,%s,%s)" % (str(a[0])[:60], s(a[1]), s(a[2]))
    if o == "sel": return "%s[%r]" % (a[0], a[1])
    return "%s(%s)" % (a[0], ",".join(s(v) for v in a[1:]))

def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c

# comparison of integers / reals -> python bool or z3 Bool
def cmp(op, a, b):
    f = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y,
         "==": lambda x, y: x == y, "!=": lambda x, y: x != y}[op]
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    if num(a) and num(b): return f(a, b)
    if ASG[0] is not None: return NCMP[0](op, a, b)
    if isint(a) and isint(b):
        d = a - b
        if not isinstance(d, IP): return f(d, 0)
        return f(zi(a), zi(b))
    a, b = real(a), real(b)
    if num(a): a = rt("const", frac(a))
    if num(b): b = rt("const", frac(b))
    if a.op == "const" and b.op == "const": return f(a.a[0], b.a[0])
    if a is b: return op in ("<=", ">=", "==")
    z = f(zr(a), zr(b))
    if op == "==": EQS[z.get_id()] = (z, a, b)
    return z
ASG = [None]  # numeric mode: the assignment of the symbols (trace.py)
NCMP = [None]
EQS = {}      # z3 ast id of an equality of reals -> (ast, RT, RT)

def and_(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c: return False
        else: out.append(c)
    return True if not out else out[0] if len(out) == 1 else z3.And(*out)
def or_(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c: return True
        else: out.append(c)
    return False if not out else out[0] if len(out) == 1 else z3.Or(*out)
def not_(c): return (not c) if isinstance(c, bool) else c.arg(0) if z3.is_not(c) else z3.Not(c)
def implies(a, b): return or_(not_(a), b)
