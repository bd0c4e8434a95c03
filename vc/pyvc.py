"""Verification of the Python functions: the real source of the modules of /repo is executed (by CPython) on symbolic values.

- numbers are terms of terms.py with a NaN flag (R), truth values are formulas (B), arrays (A) are functions of the index with
  symbolic extents; the ranks are concrete (every rank of the stated range is a separate case);
- a branch on an undecided formula splits the path: the function is executed again for every feasible sequence of decisions;
- loops over sequences of symbolic length and loops listed in INV are cut by their invariants (the loops are rewritten
  mechanically: 'for' and 'while' to 'while True' with a call at the head of the loop; nothing else of the source is changed);
- calls of the extension modules are replaced by their contracts (the postconditions proved for the C functions);
- a construct without a meaning here raises Unsupported: the function is then out of reach (reported, left to the bounded layer).
"""
import os, sys, ast, types, builtins, itertools, time, traceback, math, linecache
from fractions import Fraction
import z3
from terms import *
import prover as P
from prover import State, Log, RealGoal
import contract
from contract import eqgoal
from cexec import D, mkd, nanof, valof, Unsupported
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = REPO + "/eoxmagmod/"

class Cut(BaseException): pass          # end of the path (loop iteration shown)
class Infeasible(BaseException): pass
class SymIndexError(IndexError): pass
class Enough(BaseException): pass       # so many obligations of a function have failed that the rest is not tried
class Outside(BaseException):
    def __init__(self, why): self.why = why
def unsup(why): raise Outside(why)

# ---------------------------------------------------------------- paths
class Run:
    st = None; prefix = (); pos = 0; alts = None; log = None; func = ""; gen = None; loops = None; notes = None; deadline = None; failed = 0
RUN = Run()

def branch(c):
    if isinstance(c, bool): return c
    if RUN.st is None: unsup("branch outside of a run")
    k = RUN.pos
    if k < len(RUN.prefix) and isinstance(RUN.prefix[k], tuple):           # decided when this path was met before
        RUN.pos += 1; RUN.taken.append(RUN.prefix[k]); return RUN.prefix[k][0]
    if k >= len(RUN.prefix):
        r = P.decide(RUN.st, c)
        if r is not None: RUN.pos += 1; RUN.taken.append((r,)); return r
    return choose(c)
def choose(c=None):
    """both ways: with the formula c assumed or denied"""
    if RUN.deadline and time.time() > RUN.deadline: unsup("time limit")
    k = RUN.pos; RUN.pos += 1
    if k < len(RUN.prefix): r = RUN.prefix[k]
    else: r = True; RUN.alts.append(tuple(RUN.taken) + (False,))
    RUN.taken.append(r)
    if c is not None: RUN.st.assume(c if r else not_(c))
    return r
def explore(body, log, func, limit=4000, deadline=None):
    """execute body() for every feasible sequence of decisions"""
    work = [()]; n = 0
    while work:
        prefix = work.pop(); n += 1
        if n > limit: unsup("too many paths")
        RUN.st = State(); RUN.st.frame = (); RUN.prefix = prefix; RUN.pos = 0; RUN.taken = []; RUN.alts = []; RUN.log = log; RUN.func = func; RUN.loops = {}; RUN.gen = None; RUN.deadline = deadline; RUN.ghost = {}; RUN.writes = []
        try: body()
        except (Cut, Infeasible): pass
        work += RUN.alts
    RUN.st = None
    return n
def assume(c):
    c = tob(c)
    RUN.st.assume(c)
    if c is False or P.infeasible(RUN.st): raise Infeasible()
def check(kind, label, goal):
    if RUN.pos < len(RUN.prefix): return        # checked on the path from which this one branches off
    if isinstance(goal, B): goal = goal.c
    for g in (goal if isinstance(goal, list) else [goal]):
        n0 = len(RUN.log.items); RUN.log.check(RUN.func, kind, label, RUN.st, g)
        RUN.failed += sum(o["status"] != "proved" for o in RUN.log.items[n0:])
    if RUN.failed > 15: raise Enough()
def fail(kind, label, detail):
    if RUN.pos < len(RUN.prefix): return
    if P.infeasible(RUN.st): raise Infeasible()
    RUN.log.add(RUN.func, kind, label, False, "-", detail, 0)

# ---------------------------------------------------------------- scalars
def tob(c):
    if isinstance(c, B): return c.c
    if isinstance(c, A) and c.ndim == 0: return tob(c.elem(()))
    return bool(c) if not isinstance(c, z3.BoolRef) else c
class B:
    """truth value"""
    __slots__ = ("c",)
    def __init__(self, c): self.c = c
    def __bool__(self): return branch(self.c)
    def __and__(self, o): return opx("&", self, o)
    def __or__(self, o): return opx("|", self, o)
    __rand__ = __and__; __ror__ = __or__
    def __invert__(self): return B(not_(self.c))
    def __eq__(self, o): return opx("==", self, o)
    def __ne__(self, o): return ~opx("==", self, o)
    __hash__ = object.__hash__
def mkb(c): return c if isinstance(c, bool) else B(c)

class Num:
    __slots__ = ()
    def __add__(s, o): return opx("+", s, o)
    def __radd__(s, o): return opx("+", o, s)
    def __sub__(s, o): return opx("-", s, o)
    def __rsub__(s, o): return opx("-", o, s)
    def __mul__(s, o): return opx("*", s, o)
    def __rmul__(s, o): return opx("*", o, s)
    def __truediv__(s, o): return opx("/", s, o)
    def __rtruediv__(s, o): return opx("/", o, s)
    def __floordiv__(s, o): return opx("//", s, o)
    def __rfloordiv__(s, o): return opx("//", o, s)
    def __mod__(s, o): return opx("%", s, o)
    def __pow__(s, o): return opx("**", s, o)
    def __neg__(s): return opx("*", -1, s)
    def __pos__(s): return s
    def __abs__(s): return opx("max", s, opx("*", -1, s))
    def __lt__(s, o): return opx("<", s, o)
    def __le__(s, o): return opx("<=", s, o)
    def __gt__(s, o): return opx(">", s, o)
    def __ge__(s, o): return opx(">=", s, o)
    def __eq__(s, o): return False if o is None or isinstance(o, str) else opx("==", s, o)
    def __ne__(s, o): return True if o is None or isinstance(o, str) else opx("!=", s, o)
    def __bool__(s): return bool(opx("!=", s, 0))
    __hash__ = object.__hash__
class R(Num):
    """real number with a NaN flag"""
    __slots__ = ("v", "n")
    def __init__(self, v, n=False): self.v = v; self.n = n
    def __float__(self): unsup("float() of a symbolic number")
    def __repr__(self): return "R(%s,%s)" % (self.v, self.n)
class I(Num):
    """integer"""
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def __index__(self): unsup("symbolic integer as an index of a sequence")
    def __repr__(self): return "I(%s)" % (self.v,)
def mki(v): return I(v) if isinstance(v, IP) else v
NANR = R(real(0), True)
def lift(x):
    """element value: R, I/int, B/bool, or an infinite float"""
    if isinstance(x, (R, I, B, bool, int)): return x
    if isinstance(x, float): return NANR if x != x else x if math.isinf(x) else R(real(x))
    if isinstance(x, RT): return R(x)
    if isinstance(x, IP): return I(x)
    if isinstance(x, A) and x.ndim == 0: return lift(x.elem(()))
    unsup("value of the type %s" % type(x).__name__)
def rv(x):
    x = lift(x)
    if isinstance(x, R): return x
    if isinstance(x, I): return R(real(x.v))
    if isinstance(x, bool): return R(real(int(x)))
    if isinstance(x, int): return R(real(x))
    unsup("real value of %r" % (x,))
def ival(x):
    x = lift(x)
    if isinstance(x, I): return x.v
    if isinstance(x, (int, bool)): return int(x)
    return None
def isinf(x): return isinstance(x, float) and math.isinf(x)
ORD = ("<", "<=", ">", ">=", "==", "!=")
def nanor(a, b): return disj(a, b)
def disj(*cs):
    """disjunction of NaN flags without repetitions"""
    seen = {}; 
    def walk(c):
        if isinstance(c, bool):
            if c: seen[True] = True
        elif z3.is_or(c):
            for k in c.children(): walk(k)
        else: seen.setdefault(c.get_id(), c)
    for c in cs: walk(c)
    return True if True in seen else or_(*seen.values())
def op1(op, a, b):
    """operation on two element values"""
    a, b = lift(a), lift(b)
    if op in ("&", "|"):
        if isinstance(a, (B, bool)) and isinstance(b, (B, bool)): return mkb((and_ if op == "&" else or_)(tob(a), tob(b)))
        unsup("bitwise operation on numbers")
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)) and op in ("==", "!="):
        c, d = tob(a), tob(b); e = and_(implies(c, d), implies(d, c)); return mkb(e if op == "==" else not_(e))
    if isinstance(a, B): a = R(real(iz(z3.If(a.c, z3.IntVal(1), z3.IntVal(0)))))
    if isinstance(b, B): b = R(real(iz(z3.If(b.c, z3.IntVal(1), z3.IntVal(0)))))
    if op in ORD:
        if isinf(a) or isinf(b):
            if isinf(a) and isinf(b): return eval("a %s b" % op)
            o = b if isinf(a) else a; nn = not_(o.n) if isinstance(o, R) else True
            x, y = (a, 0.0) if isinf(a) else (0.0, b)
            t = eval("x %s y" % op)
            return True if op == "!=" else mkb(nn) if t else False
        i, j = ival(a), ival(b)
        if i is not None and j is not None: return mkb(cmp(op, i, j))
        a, b = rv(a), rv(b)
        c = cmp(op, a.v, b.v); n = nanor(a.n, b.n)
        return mkb(or_(n, c) if op == "!=" else and_(not_(n), c))
    i, j = ival(a), ival(b)
    if i is not None and j is not None:
        if op == "+": return mki(i + j)
        if op == "-": return mki(i - j)
        if op == "*": return mki(i * j)
        if op == "max": return a if bool(mkb(cmp(">=", i, j))) else b
        if op == "min": return a if bool(mkb(cmp("<=", i, j))) else b
        if op == "//" and isinstance(j, int) and j > 0:
            if isinstance(i, int): return i // j
            if j == 2:
                h = half(i)
                if h is not None: return mki(h)
            return mki(iz(zi(i) / z3.IntVal(j)))
        if op == "%" and isinstance(j, int) and j > 0: return i % j if isinstance(i, int) else mki(iz(zi(i) % z3.IntVal(j)))
        if op == "**" and isinstance(i, int) and isinstance(j, int): return i ** j
    if isinf(a) or isinf(b):
        if op in ("+", "-") and isinf(a) != isinf(b):
            o = b if isinf(a) else a
            if isinstance(o, R) and o.n is not False:
                if branch(o.n): return NANR
            return a if isinf(a) else b if op == "+" else -b
        if op in ("max", "min"): return a if bool(op1(">=" if op == "max" else "<=", a, b)) else b
        unsup("arithmetic with an infinite value")
    if op == "**":
        j = ival(b)
        if isinstance(j, int) and 0 <= j <= 8:
            r = R(real(1), rv(a).n)
            for _ in range(j): r = op1("*", r, a)
            return r
        unsup("power")
    a, b = rv(a), rv(b); n = nanor(a.n, b.n)
    if op == "+": return R(a.v + b.v, n)
    if op == "-": return R(a.v - b.v, n)
    if op == "*": return R(a.v * b.v, n)
    if op == "/":
        if not (isconst(b.v) and b.v.a[0] != 0) and not branch(cmp("!=", b.v, 0)):
            unsup("division by zero")
        return R(a.v / b.v, n)
    if op in ("max", "min"):
        if n is not False and branch(n): return NANR
        return a if branch(cmp(">=" if op == "max" else "<=", a.v, b.v)) else b
    if op == "%":
        q = floorint(a.v / b.v, zr(a.v / b.v)); return R(a.v - b.v * real(q), n)
    unsup("operation %s" % op)
def opx(op, a, b):
    for x in (a, b):
        if not isinstance(x, (R, I, B, bool, int, float, A, list, tuple)):
            if hasattr(x, "__array_sym__"): continue
            return NotImplemented
    if isinstance(a, (list, tuple)): a = asarray(a)
    if isinstance(b, (list, tuple)): b = asarray(b)
    if isinstance(a, A) or isinstance(b, A): return elementwise(lambda x, y: op1(op, x, y), a, b)
    return op1(op, a, b)

# ---------------------------------------------------------------- arrays
class MaskAxis:
    """axis of the elements selected by a mask; its index is the multi-index of the element"""
    def __init__(self, f, shape): self.f = f; self.shape = shape
    def __eq__(self, o):
        if self is o or isinstance(o, MaskAxis) and samemask(self, o): return True
        unsup("comparison of the numbers of selected elements")
    __hash__ = object.__hash__
def samemask(a, b):
    if a is b: return True
    if len(a.shape) != len(b.shape) or not all(sameext(x, y) for x, y in zip(a.shape, b.shape)): return False
    idx = generic(a.shape)
    c, d = tob(a.f(idx)), tob(b.f(idx))
    if c is d: return True
    return P.decide(RUN.st, and_(implies(c, d), implies(d, c))) is True
def generic(shape):
    """the index of the arbitrary element: the same one for every array of the run (the axes are told by their number and extent)"""
    out = []
    for k, n in enumerate(shape):
        if isinstance(n, MaskAxis): out.append(generic(n.shape))
        elif isinstance(n, int): unsup("generic index of a fixed axis")
        elif "axes" in RUN.ghost and ikey(ival(n)) in RUN.ghost["axes"]: out.append(RUN.ghost["w"])
        else: out.append(RUN.gen[k])
    return tuple(out)
def sameext(a, b):
    if isinstance(a, MaskAxis) or isinstance(b, MaskAxis): return isinstance(a, MaskAxis) and isinstance(b, MaskAxis) and samemask(a, b)
    i, j = ival(a), ival(b)
    if isinstance(i, int) and isinstance(j, int): return i == j
    return branch(cmp("==", i, j))
class Stride:
    def __init__(self, k): self.k = k
def memo(f):
    """the elements already evaluated (the decisions of a path only grow: the values stay valid on the path)"""
    m = {}
    def g(idx):
        k = tkey(idx)
        if k not in m: m[k] = f(idx)
        return m[k]
    return g
def tkey(i): return tuple(tkey(j) for j in i) if isinstance(i, tuple) else i.key() if isinstance(i, IP) else i
class Buf:
    count = itertools.count()
    def __init__(self, f, readonly=False, label="array"): self.f = f; self.readonly = readonly; self.label = label; self.n = next(Buf.count)
class A(Num):
    """array: elements f(idx) of the buffer at the index map; shape of I / int / MaskAxis"""
    __slots__ = ("buf", "imap", "shape", "inv", "kind", "partial")
    def __init__(self, f, shape, kind="f", buf=None, imap=None, inv=None, label="array", readonly=False):
        self.buf = buf or Buf(memo(f), readonly, label); self.imap = imap; self.inv = inv; self.shape = tuple(shape); self.kind = kind
    def elem(self, idx):
        return self.buf.f(self.imap(idx) if self.imap else idx)
    def snap(self):
        f, m = self.buf.f, self.imap
        return (lambda idx: f(m(idx))) if m else f
    @property
    def ndim(self): return len(self.shape)
    @property
    def strides(self): return tuple(Stride(k) for k in range(self.ndim))
    @property
    def size(self): return Size(self.shape)
    @property
    def dtype(self): return self.kind
    @property
    def T(self): return self.transpose()
    def __repr__(self): return "A%s" % (self.shape,)
    def __len__(self):
        if not self.shape: raise TypeError("len() of unsized object")
        if isinstance(self.shape[0], int): return self.shape[0]
        unsup("length of a symbolic axis")
    def __iter__(self):
        if not self.shape: raise TypeError("iteration over a 0-d array")
        if not isinstance(self.shape[0], int): unsup("iteration over a symbolic axis")
        return iter([self[k] for k in range(self.shape[0])])
    def __bool__(self):
        if self.ndim == 0:
            return bool(self.elem(()))
        unsup("truth value of an array")
    def __and__(s, o): return opx("&", s, o)
    def __or__(s, o): return opx("|", s, o)
    def __rand__(s, o): return opx("&", o, s)
    def __ror__(s, o): return opx("|", o, s)
    def __invert__(s): return elementwise(lambda x: mkb(not_(tob(x))), s)
    def __eq__(s, o): return opx("==", s, o)
    def __ne__(s, o): return opx("!=", s, o)
    __hash__ = object.__hash__
    # -- in place
    def put(self, g):
        """set every element: idx -> g(idx)"""
        if self.buf.readonly: fail("frame", "writes to %s" % self.buf.label, "in-place change of an argument of the caller")
        old = self.buf.f; RUN.writes.append(self.buf)
        if self.imap is None: self.buf.f = memo(g); return
        if self.inv is None: unsup("in-place change of a view")
        inv = self.inv
        def f(idx):
            c, i = inv(idx)
            return g(i) if branch(c) else old(idx)
        self.buf.f = memo(f)
    def iop(self, op, o):
        o = asarray(o); r = opx(op, A(self.snap(), self.shape, self.kind), o)
        if r.ndim != self.ndim: raise ValueError("non-broadcastable output operand")
        self.put(r.snap()); return self
    def __iadd__(s, o): return s.iop("+", o)
    def __isub__(s, o): return s.iop("-", o)
    def __imul__(s, o): return s.iop("*", o)
    def __itruediv__(s, o): return s.iop("/", o)
    def __iand__(s, o): return s.iop("&", o)
    def __ior__(s, o): return s.iop("|", o)
    def copy(self): return A(self.snap(), self.shape, self.kind)
    def astype(self, *a, **k): return self.copy()
    def transpose(self, *a):
        if a or self.ndim > 2: unsup("transpose")
        f = self.snap(); return A(lambda idx: f(idx[::-1]), self.shape[::-1], self.kind)
    def sum(self, axis=None, **k):
        if k or axis is None: unsup("sum")
        if axis < 0: axis += self.ndim
        n = self.shape[axis]
        if not isinstance(n, int): unsup("sum over a symbolic axis")
        f = self.snap()
        def g(idx):
            r = f(idx[:axis] + (0,) + idx[axis:])
            for k in range(1, n): r = op1("+", r, f(idx[:axis] + (k,) + idx[axis:]))
            return r
        return A(g, self.shape[:axis] + self.shape[axis + 1:], self.kind)
    def reshape(self, *a, **k): unsup("reshape")
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        unsup("array method %s" % name)
    # -- indexing
    def parse(self, key):
        if not isinstance(key, tuple): key = (key,)
        key = [asarray(k) if isinstance(k, (B, bool)) or isinstance(k, list) else k for k in key]
        for k in key:
            if not (k is Ellipsis or isinstance(k, (int, slice, I)) or isinstance(k, A) and k.kind == "b"): unsup("index of the type %s" % type(k).__name__)
        used = sum(k.ndim if isinstance(k, A) else 0 if k is Ellipsis else 1 for k in key)
        if used > self.ndim: raise IndexError("too many indices for array")
        if Ellipsis not in [k if not isinstance(k, A) else None for k in key]: key.append(Ellipsis)
        pos = next(n for n, k in enumerate(key) if k is Ellipsis)
        key[pos:pos + 1] = [slice(None)] * (self.ndim - used)
        return key
    def view(self, key):
        """(shape, map of the index of the result to the index of the array, inverse)"""
        key = self.parse(key); ax = 0; shape = []; plan = []; masks = 0
        for k in key:
            if isinstance(k, A):
                for n in range(k.ndim):
                    if not sameext(self.shape[ax + n], k.shape[n]): raise IndexError("boolean index did not match indexed array")
                masks += 1; shape.append(MaskAxis(k.snap(), self.shape[ax:ax + k.ndim])); plan.append(("mask", k.ndim, k.snap())); ax += k.ndim
            elif isinstance(k, slice):
                n = self.shape[ax]
                if k != slice(None):
                    if isinstance(n, int): r = range(n)[k]; shape.append(len(r)); plan.append(("range", r))
                    elif k.step in (None, 1) and k.start in (None, 0) and k.stop is None: shape.append(n); plan.append(("all",))
                    elif k.step in (None, 1) and k.start in (None, 0) and ival(k.stop) is not None and not isinstance(n, MaskAxis):
                        stop = ival(k.stop)
                        if not branch(cmp(">=", stop, 0)): unsup("negative end of a slice")
                        if branch(cmp(">=", stop, ival(n))): shape.append(n); plan.append(("all",))
                        else: shape.append(mki(stop)); plan.append(("upto", stop))
                    else: unsup("slice of a symbolic axis")
                else: shape.append(n); plan.append(("all",))
                ax += 1
            else:
                n = self.shape[ax]; i = ival(k)
                if isinstance(i, int) and i < 0: i = i + ival(n)
                if isinstance(n, MaskAxis): unsup("index on the axis of a mask")
                if not branch(and_(cmp("<=", 0, i), cmp("<", i, ival(n)))): raise IndexError("index out of bounds")
                plan.append(("at", i)); ax += 1
        if masks > 1: unsup("two masks in an index")
        def fwd(idx):
            out = []; k = 0
            for p in plan:
                if p[0] == "mask": out += idx[k]; k += 1
                elif p[0] in ("all", "upto"): out.append(idx[k]); k += 1
                elif p[0] == "range": out.append(p[1][idx[k]]); k += 1
                else: out.append(p[1])
            return tuple(out)
        def inv(idx):
            cond = True; out = []; k = 0
            for p in plan:
                if p[0] == "mask":
                    cond = and_(cond, tob(p[2](tuple(idx[k:k + p[1]])))); out.append(tuple(idx[k:k + p[1]])); k += p[1]
                elif p[0] == "all": out.append(idx[k]); k += 1
                elif p[0] == "upto": cond = and_(cond, cmp("<", idx[k], p[1])); out.append(idx[k]); k += 1
                elif p[0] == "range":
                    if idx[k] not in p[1]: return False, None
                    out.append(p[1].index(idx[k])); k += 1
                else: cond = and_(cond, cmp("==", idx[k], p[1])); k += 1
            return cond, tuple(out)
        return shape, fwd, inv, masks
    def __getitem__(self, key):
        shape, fwd, inv, masks = self.view(key)
        if masks:
            f = self.snap(); return A(lambda idx: f(fwd(idx)), shape, self.kind)
        m, im = self.imap, self.inv
        imap = (lambda idx: m(fwd(idx))) if m else fwd
        if m and im is None: ninv = None
        elif m:
            def ninv(b):
                c, i = im(b)
                if c is False: return False, None
                d, j = inv(i); return and_(c, d), j
        else: ninv = inv
        if not shape and not any(k is Ellipsis for k in (key if isinstance(key, tuple) else (key,))):
            v = self.elem(fwd(())); return A(lambda idx: v, (), self.kind)       # a scalar, not a view
        r = A(None, shape, self.kind, buf=self.buf, imap=imap, inv=ninv)
        return r
    def __setitem__(self, key, val):
        shape, fwd, inv, masks = self.view(key)
        val = asarray(val)
        vf = bcast_to(val, shape)
        old = self.snap()
        def g(idx):
            c, i = inv(idx)
            if c is False: return old(idx)
            return vf(i) if branch(c) else old(idx)
        self.put(g)
class Size(Num):
    def __init__(self, shape): self.shape = shape
    def positive(self):
        c = True
        for n in self.shape:
            if isinstance(n, MaskAxis): c = and_(c, nonempty(n))
            else: c = and_(c, cmp(">", ival(n), 0))
        return mkb(c)
    def __gt__(self, o): return self.positive() if isinstance(o, int) and o == 0 else unsup("size")
    def __ne__(self, o): return self.__gt__(o)
    def __eq__(self, o): return not bool(self.__gt__(o))
    def __lt__(self, o): return not bool(self.positive()) if o == 1 else unsup("size")
    def __ge__(self, o): return self.positive() if o == 1 else unsup("size")
    def __bool__(self): return bool(self.positive())
def nonempty(n):
    """is an element selected: yes if the arbitrary one is, open otherwise"""
    if "axes" in (RUN.ghost or {}): return NOTEMPTY(n)
    if branch(tob(n.f(generic(n.shape)))): return True
    return z3.Bool(fresh_name("other elements selected"))
def extent1(n): return isinstance(n, int) and n == 1
def broadcast(shapes):
    r = max(map(len, shapes)); out = []
    for k in range(1, r + 1):
        ns = [s[-k] for s in shapes if len(s) >= k]; n = ns[0]
        for m in ns[1:]:
            if extent1(m): continue
            if extent1(n): n = m; continue
            if n is m: continue
            if isinstance(n, MaskAxis) or isinstance(m, MaskAxis):
                if not sameext(n, m): unsup("selected elements of different masks")
                continue
            if branch(cmp("==", ival(n), ival(m))): continue
            if not isinstance(n, int) and branch(cmp("==", ival(n), 1)): n = m; unsup("broadcast of a symbolic axis"); continue
            if not isinstance(m, int) and branch(cmp("==", ival(m), 1)): unsup("broadcast of a symbolic axis"); continue
            raise ValueError("operands could not be broadcast together")
        out.append(n)
    return tuple(out[::-1])
def aligned(a, shape):
    """element function of a broadcast to the shape"""
    f = a.snap(); off = len(shape) - a.ndim; one = [extent1(n) and not extent1(shape[k + off]) for k, n in enumerate(a.shape)]
    return lambda idx: f(tuple(0 if o else i for i, o in zip(idx[off:], one)))
def bcast_to(a, shape):
    s = broadcast([a.shape, tuple(shape)]) if a.ndim <= len(shape) else None
    if s is None:
        raise ValueError("could not broadcast input array")
    return aligned(a, shape)
def elementwise(g, *args):
    args = [asarray(a) for a in args]; shape = broadcast([a.shape for a in args])
    fs = [aligned(a, shape) for a in args]
    kind = "f"
    r = A(lambda idx: g(*[f(idx) for f in fs]), shape, kind)
    if all(a.kind == "b" for a in args): r.kind = "b"
    return r
class Kinded: pass
def asarray(x, *a, **k):
    if isinstance(x, A): return x
    if isinstance(x, (list, tuple)):
        items = [asarray(i) for i in x]
        if not items: return A(lambda idx: unsup("empty array"), (0,))
        sh = items[0].shape
        for i in items[1:]:
            if len(i.shape) != len(sh): raise ValueError("inhomogeneous shape")
            for p, q in zip(i.shape, sh):
                if not sameext(p, q): raise ValueError("inhomogeneous shape")
        fs = [i.snap() for i in items]
        def f(idx):
            if not isinstance(idx[0], int): unsup("symbolic index of a list")
            return fs[idx[0]](idx[1:])
        return A(f, (len(items),) + tuple(sh), items[0].kind)
    if hasattr(x, "__array_sym__"): return x.__array_sym__()
    v = lift(x); return A(lambda idx: v, (), "b" if isinstance(v, (B, bool)) else "f")
# comparisons give arrays of truth values
for _n, _o in (("__lt__", "<"), ("__le__", "<="), ("__gt__", ">"), ("__ge__", ">="), ("__eq__", "=="), ("__ne__", "!=")):
    def _mk(o):
        def f(s, x):
            if x is None: return o == "!="
            r = opx(o, s, x)
            if isinstance(r, A): r.kind = "b"
            return r
        return f
    setattr(A, _n, _mk(_o))
_iw = opx
def opx(op, a, b):
    r = _iw(op, a, b)
    if isinstance(r, A) and op in ORD: r.kind = "b"
    return r

# ---------------------------------------------------------------- functions
def fapp(name, *a):
    """real function of real arguments (undefined NaN: NaN in any of them gives NaN)"""
    a = [rv(x) for x in a]; n = False
    n = disj(*[x.n for x in a])
    return R(app(name, *[x.v for x in a]), n)
def ufunc(g):
    def f(*a, **k):
        if k: unsup("keyword arguments of an array function")
        if any(isinstance(x, (A, list, tuple)) for x in a): return elementwise(g, *a)
        return g(*a)
    return f
def uf(name): return ufunc(lambda *a: fapp(name, *a))
def sq(x):
    x = rv(x); return R(app("SQRT", x.v), x.n)
PI_ = R(rt("const", frac(math.pi)))
def scale(num, den): return ufunc(lambda x: op1("*", x, R(real(1) * num.v / den.v)))
DEGC = lambda: R(PI_.v / real(180)); RADC = lambda: R(real(180) / PI_.v)
class Missing:
    def __init__(self, name): self.name = name
    def __call__(self, *a, **k): unsup("function %s" % self.name)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        unsup("attribute %s.%s" % (self.name, n))
class Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Missing("%s.%s" % (self.__name__, n))
def stub(name, **k):
    m = Stub(name); m.__dict__.update(k); return m
def shape_of(s):
    if isinstance(s, (I, int)): s = (s,)
    return tuple(s)
def full(shape, v, dtype=None, **k):
    if isinstance(v, A):
        if v.ndim: unsup("full with an array")
    v = lift(v); return A(lambda idx: v, shape_of(shape), "b" if isinstance(v, (B, bool)) else "f")
def empty(shape, *a, **k):
    nm = fresh_name("uninitialised")
    def f(idx): RUN.uninit = True; return R(app(nm, *[i for i in flat(idx)]), z3.Bool(nm))
    return A(f, shape_of(shape))
def flat(idx):
    for i in idx:
        if isinstance(i, tuple): yield from flat(i)
        else: yield i
def np_dot(a, b):
    a, b = asarray(a), asarray(b)
    if b.ndim != 2 or not isinstance(b.shape[0], int) or not a.ndim: unsup("dot")
    if not sameext(a.shape[-1], b.shape[0]): raise ValueError("shapes not aligned")
    n = b.shape[0]; f, g = a.snap(), b.snap()
    def h(idx):
        r = None
        for k in range(n):
            t = op1("*", f(idx[:-1] + (k,)), g((k, idx[-1]))); r = t if r is None else op1("+", r, t)
        return r
    return A(h, a.shape[:-1] + (b.shape[1],))
def as_strided(x, shape=None, strides=None, **k):
    if k or shape is None or strides is None: unsup("as_strided")
    if len(shape) != len(strides): raise ValueError("mismatch of strides")
    src = {}
    for ax, s in enumerate(strides):
        if isinstance(s, Stride): 
            if s.k in src: unsup("repeated stride")
            src[s.k] = ax
        elif not (isinstance(s, int) and s == 0): unsup("stride")
    f = x.snap()
    for k in range(x.ndim):
        if k in src and not (shape[src[k]] is x.shape[k] or sameext(shape[src[k]], x.shape[k])): unsup("as_strided changes an extent")
    def g(idx): return f(tuple(idx[src[k]] if k in src else 0 for k in range(x.ndim)))
    r = A(g, shape, x.kind, readonly=True, label="a broadcast view"); return r
def broadcast_to(x, shape, **k):
    x = asarray(x); return A(bcast_to(x, shape), shape, x.kind, readonly=True, label="a broadcast view")
def where(c, a=None, b=None):
    if a is None: unsup("where")
    return elementwise(lambda x, y, z: y if branch(tob(x)) else z, c, a, b)
class NDIter:
    """iteration over the elements: an arbitrary other element first, then the arbitrary element of the run"""
    def __init__(self, ops, *a, **k):
        self.ops = [asarray(o) for o in (ops if isinstance(ops, (list, tuple)) else [ops])]; self.k = k
        if a or set(k) - {"op_flags", "flags"} or k.get("flags"): unsup("nditer options")
        for o in self.ops[1:]:
            if o.ndim != self.ops[0].ndim or not all(x is y or sameext(x, y) for x, y in zip(o.shape, self.ops[0].shape)): unsup("nditer over different shapes")
    def __iter__(self):
        sh = self.ops[0].shape; g = generic(sh)
        other = other_index(g)
        for idx in (other, g):
            yield tuple(cell(o, idx) for o in self.ops)
def other_index(g):
    """an index different from g"""
    if not g: unsup("nditer over a scalar")
    out = []; c = True
    def new(i):
        nonlocal c
        if isinstance(i, tuple): return tuple(new(j) for j in i)
        v = fresh_int("other"); c = and_(c, cmp("==", v, i)); return v
    out = tuple(new(i) for i in g); RUN.st.assume(not_(c)); return out
def cell(a, idx):
    def inv(b):
        c = True
        if a.imap:
            d, j = a.inv(b)
            if d is False: return False, None
            c = and_(c, d)
        else: j = b
        for x, y in zip(flat(j), flat(idx)): c = and_(c, cmp("==", x, y))
        return c, ()
    m = a.imap
    return A(None, (), a.kind, buf=a.buf, imap=(lambda _: m(idx)) if m else (lambda _: idx), inv=inv)
def np_isnan(x): return ufunc1b(lambda v: mkb(nan_of(v)), x)
def nan_of(v):
    v = lift(v); return v.n if isinstance(v, R) else False
def ufunc1b(g, x):
    if isinstance(x, (A, list, tuple)):
        r = elementwise(g, x); r.kind = "b"; return r
    return g(x)
def anyall(isall):
    def f(x, *a, **k):
        unsup("any/all of an array")
    return f
def hyp(*a):
    s = None
    for x in a:
        t = op1("*", x, x); s = t if s is None else op1("+", s, t)
    return sq(s)
fns = dict(sin=uf("SIN"), cos=uf("COS"), tan=uf("TAN"), arctan2=uf("ATAN2"), arcsin=uf("ASIN"), sqrt=ufunc(sq), hypot=ufunc(hyp),
           pi=PI_, radians=scale(PI_, R(real(180))), deg2rad=scale(PI_, R(real(180))), degrees=scale(R(real(180)), PI_), rad2deg=scale(R(real(180)), PI_), floor=ufunc(lambda x: R(real(floorint(rv(x).v, zr(rv(x).v))), rv(x).n)))
MATH = stub("math", **{k: v for k, v in fns.items() if k not in ("arctan2", "arcsin", "floor")}, atan2=uf("ATAN2"), asin=uf("ASIN"), inf=math.inf, nan=math.nan,
            isnan=lambda x: np_isnan(x), floor=Missing("math.floor"))
NUMPY = stub("numpy", **fns, asarray=asarray, array=lambda x, *a, **k: asarray(x).copy(), asanyarray=asarray, full=full, zeros=lambda s, *a, **k: full(s, 0), ones=lambda s, *a, **k: full(s, 1), empty=empty,
             full_like=lambda a, v, **k: full(asarray(a).shape, v), empty_like=lambda a, **k: empty(asarray(a).shape), zeros_like=lambda a, **k: full(asarray(a).shape, 0), inf=math.inf, nan=math.nan, isnan=np_isnan, dot=np_dot, nditer=NDIter, broadcast_to=broadcast_to, where=where,
             maximum=ufunc(lambda a, b: op1("max", a, b)), minimum=ufunc(lambda a, b: op1("min", a, b)), ndarray=A, float64=float, negative=lambda x: -x,
             logical_and=lambda a, b: a & b, logical_or=lambda a, b: a | b, logical_not=lambda a: ~asarray(a), multiply=lambda a, b: a * b, add=lambda a, b: a + b, subtract=lambda a, b: a - b,
             ndim=lambda a: asarray(a).ndim, shape=lambda a: asarray(a).shape, bool_=bool, newaxis=None)
NUMPY.matmul = np_dot
def const(v):
    def f(s, dtype=None, *a, **k):
        if dtype in ("bool", "?", bool): r = full(s, mkb(bool(v))); r.kind = "b"; return r
        return full(s, v)
    return f
NUMPY.ones, NUMPY.zeros = const(1), const(0)
NUMPY.copy = lambda x, *a, **k: asarray(x).copy()
STRIDES = stub("numpy.lib.stride_tricks", as_strided=as_strided, broadcast_to=broadcast_to)

# ---------------------------------------------------------------- loops
class SymList:
    """sequence of symbolic length: item(k) gives the k-th element"""
    def __init__(self, n, item, off=0): self.n = n; self.item = item; self.off = off
    def __iter__(self): unsup("iteration over a sequence of symbolic length outside of a loop with an invariant")
    def __bool__(self): return branch(cmp(">", self.n, self.off))
    def __len__(self): unsup("length of a symbolic sequence")
    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1) or k.stop is not None or not isinstance(k.start, (int, type(None))) or (k.start or 0) < 0: unsup("slice of a symbolic sequence")
            s = k.start or 0
            return SymList(self.n, self.item, mki_raw(ite_min(self.off + s, self.n)))
        i = ival(k)
        if isinstance(i, int) and i < 0: unsup("negative index of a symbolic sequence")
        if not branch(and_(cmp("<=", 0, i), cmp("<", i + self.off, self.n))): raise SymIndexError("list index out of range")
        return self.item(i + self.off)
def mki_raw(x): return x
def ite_min(a, n): return a if branch(cmp("<=", a, n)) else n
LEARN = {}      # what an attempt found out about the loops: (loop, variable) -> kept (True) or changed (False) by its iterations; see learn
def learn(k, v):
    if LEARN.get(k) != v: LEARN[k] = v
class Poison:
    """a variable assigned in a loop, not in its invariant; when it is used, the next attempt tries that the iterations keep it"""
    def __init__(self, name, key=None): object.__setattr__(self, "_n", name); object.__setattr__(self, "_k", key)
    def __getattr__(self, n): poisoned(self)
    def __bool__(self): poisoned(self)
    __call__ = __getitem__ = __iter__ = __len__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __and__ = __rand__ = __or__ = __neg__ = __invert__ = __index__ = __iadd__ = __setitem__ = lambda self, *a, **k: poisoned(self)
    __hash__ = object.__hash__
def poisoned(p):
    n, k = object.__getattribute__(p, "_n"), object.__getattribute__(p, "_k")
    if k is not None: LEARN.setdefault((k, n), True)
    unsup("variable %s carried between the iterations of a loop" % n)
INV = {}        # (function name, ordinal of the loop) -> object with names, init/inv (see k_py*.py)
class Loop:
    """a loop cut by its invariant"""
    def __init__(self, key, seq, inv): self.key = key; self.seq = seq; self.inv = inv; self.state = 0; self.done = False; self.k = None
def enter(key, seq, assigned):
    inv = INV.get(key)
    if hasattr(seq, "symlist"): seq = seq.symlist()
    if isinstance(seq, SymList):
        if inv is None: unsup("no invariant for the loop %s of %s" % (key[1], key[0]))
        return Loop(key, seq, inv)
    if seq is None:
        return Loop(key, None, inv) if inv is not None else Plain(None)
    if isinstance(seq, NDIter): return Plain(iter(seq), poison=True)
    if type(seq) is range and inv is not None: return Loop(key, SymList(len(seq), lambda k: mki(seq.start + k * seq.step)), inv)
    return Plain(iter(seq))
class Plain:
    """a loop executed as it is"""
    def __init__(self, it, poison=False): self.it = it; self.done = False; self.n = 0; self.poison = poison
    def head(self, loc, names):
        self.n += 1
        if self.n > 64: unsup("loop without an invariant")
        if self.it is not None:
            try: self.item = next(self.it)
            except StopIteration: self.done = True
        if self.poison and self.n > 1 and not self.done: return {k: Poison(k) for k in names}
        return {}
def loop_head(self, loc, names):
    L = self
    if L.state == 0:
        L.state = 1
        L.frame = loc
        missing = [n for n in L.inv.names if n not in loc]
        if missing: unsup("the variables of the invariant (%s) are not there" % ", ".join(missing))
        start = L.seq.off if L.seq is not None else 0
        L.inv.check(L, loc, start, "on entry")                 # invariant on entry
        k = L.k = fresh_int("iteration"); RUN.st.assume(cmp(">=", k, start))
        if L.seq is not None: RUN.st.assume(cmp("<=", k, L.seq.n))
        vals = L.inv.havoc(L, loc, k)                          # arbitrary iteration: the invariant is assumed
        out = {n: Poison(n, L.key if n in loc else None) for n in names}
        L.keep = [n for n in names if n in loc and n not in L.inv.names and LEARN.get((L.key, n))]
        out.update({n: loc[n] for n in L.keep}); out.update(vals)
        if L.seq is not None:
            if branch(cmp("!=", k, L.seq.n)): L.item = L.seq.item(k)     # the iteration before the end of the loop
            else: L.done = True; RUN.st.assume(cmp("==", k, L.seq.n))
        L.born = next(Buf.count); RUN.writes = []; L.seen = {n: (v, snapshot(v)) for n, v in loc.items() if isinstance(v, (dict, list, set, SymIter, SymList)) and not n.startswith("_pv_")}
        return out
    if L.state == 1:
        for b in RUN.writes:
            if b.n < L.born and b not in L.bufs: unsup("%s written in the loop is not in its invariant" % b.label)
        for n, (v, s) in L.seen.items():
            if n not in L.inv.names and snapshot(v) != s: unsup("%s changed in the loop is not in its invariant" % n)
        for n in L.keep:
            if loc.get(n) is not L.frame[n]: LEARN[L.key, n] = False; unsup("variable %s carried between the iterations of a loop" % n)
        L.inv.check(L, loc, L.k + 1, "preserved")
        raise Cut()
def snapshot(v): return ikey(v.pos) if isinstance(v, SymIter) else [(ikey(i), id(x)) for i, x in getattr(v, "ops", ())] if isinstance(v, SymList) else [(k, id(x)) for k, x in v.items()] if isinstance(v, dict) else sorted(map(id, v)) if isinstance(v, set) else [id(x) for x in v]
Loop.head = loop_head

class Inv:
    """invariant of a loop: arrays {variable: value at the element idx after k iterations}, values {variable: value}, assumptions and facts about k"""
    names = ()
    def arrays(self, L, loc, k): return {}
    def values(self, L, loc, k): return {}
    def known(self, L, loc, k): pass          # what is assumed of the iteration k (definitions of the ghost variables)
    def facts(self, L, loc, k): return []     # further facts of the invariant: (label, formula)
    def check(self, L, loc, k, when):
        lab = "invariant %s (%s)" % (when, L.key[0].rpartition(".")[2])
        for n, (g, w) in self.arrays(L, loc, k).items():
            for c, idx, want in elements(g, w): same("%s: %s%s" % (lab, n, c), asarray(loc[n]).elem(idx), want(), "inv")
        for n, w in self.values(L, loc, k).items(): same("%s: %s" % (lab, n), loc[n], w, "inv")
        for n, c in self.facts(L, loc, k): check("inv", "%s: %s" % (lab, n), c)
    def havoc(self, L, loc, k):
        L.bufs = []; out = {}
        for n, (g, w) in self.arrays(L, loc, k).items():
            a = loc[n]
            if not isinstance(a, A) or a.imap is not None or a.buf.readonly: unsup("%s is not an array of its own" % n)
            vals = {tuple(ikey(i) for i in flat(idx)): want for c, idx, want in elements(g, w)}; nm = fresh_name(n); kind = a.kind
            def f(idx, vals=vals, nm=nm, kind=kind):
                h = vals.get(tuple(ikey(i) for i in flat(idx)))
                if h is not None: return h()
                return B(boolapp(nm, list(flat(idx)))) if kind == "b" else R(app(nm, *flat(idx)), boolapp("nan " + nm, list(flat(idx))))
            a.buf.f = f; L.bufs.append(a.buf); out[n] = a
        out.update(self.values(L, loc, k))
        for _, c in self.facts(L, loc, k): assume(c)
        self.known(L, loc, k)
        return out
def ikey(i): return i.key() if isinstance(i, IP) else i
def elements(g, w):
    """values of the arbitrary element: w() of a scalar element, w(c) of the component c"""
    if w.__code__.co_argcount - len(w.__defaults__ or ()) == 0: yield "", tuple(g), w
    else:
        for c in range(3): yield ", component %d" % c, tuple(g) + (c,), (lambda c=c: w(c))

class VarArgs:
    """the arguments *args: a sequence of symbolic length"""
    def __init__(self, seq): self.seq = seq
def varargs(t): return t[0].seq if len(t) == 1 and isinstance(t[0], VarArgs) else t
def scope(nodes):
    """the nodes of one function scope: nested functions and comprehensions left out"""
    for n in nodes:
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): continue
        yield from scope(ast.iter_child_nodes(n))
def function_locals(node):
    a = node.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    off = set()
    for x in scope(node.body):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): out.add(x.id)
        if isinstance(x, (ast.Global, ast.Nonlocal)): off |= set(x.names)
    return out - off
class Rewrite(ast.NodeTransformer):
    """for/while -> while True with a head"""
    def __init__(self, mod): self.mod = mod; self.stack = []; self.n = []; self.loc = []
    def func(self, node):
        if node.args.vararg:      # a sequence of symbolic length given as the arguments
            v = node.args.vararg.arg; node.body[:0] = ast.parse("%s = _pv_var_(%s)" % (v, v)).body
            ast.copy_location(node.body[0], node); ast.fix_missing_locations(node.body[0])
        self.stack.append(node.name); self.n.append(0); self.loc.append(function_locals(node))
        self.generic_visit(node); self.stack.pop(); self.n.pop(); self.loc.pop(); return node
    visit_FunctionDef = func
    def visit_ClassDef(self, node):
        self.stack.append(node.name); self.n.append(0); self.generic_visit(node); self.stack.pop(); self.n.pop(); return node
    def loop(self, node):
        if not self.n: return self.generic_visit(node) or node
        k = self.n[-1]; self.n[-1] += 1
        key = ("%s.%s" % (self.mod, ".".join(self.stack)), k)
        names = sorted({x.id for x in scope(node.body) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | ({x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)} if isinstance(node, ast.For) else set()))
        self.generic_visit(node)
        if node.orelse: return node
        v = "_pv_loop_%d_%d_" % (len(self.stack), k)
        src = ["%s = _pv_enter_(%r, %s, %r)" % (v, key, "_PV_ITER_" if isinstance(node, ast.For) else "None", names), "while True:\n    _pv_st_ = %s.head(locals(), %r)" % (v, names)]
        head = ast.parse("\n".join(src)).body
        w = head[1]
        for n in sorted(set(names) | (self.loc[-1] if self.loc else set())):
            w.body += ast.parse("if %r in _pv_st_: %s = _pv_st_[%r]" % (n, n, n)).body
        if isinstance(node, ast.For):
            for x in ast.walk(head[0]):
                if isinstance(x, ast.Call): x.args = [node.iter if isinstance(a, ast.Name) and a.id == "_PV_ITER_" else a for a in x.args]
            w.body += ast.parse("if %s.done: break" % v).body
            asg = ast.Assign(targets=[node.target], value=ast.parse("%s.item" % v, mode="eval").body); w.body.append(asg)
        else:
            w.body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=[ast.Break()], orelse=[]))
        w.body += node.body
        for x in head: ast.copy_location(x, node); ast.fix_missing_locations(x)
        return head
    visit_For = visit_While = loop

# ---------------------------------------------------------------- built-in functions which see symbolic sequences
class SymIter:
    """iterator of a sequence of symbolic length; pos: number of the elements taken"""
    def __init__(self, seq): self.seq = seq; self.pos = seq.off
    def __next__(self):
        if branch(cmp("<", self.pos, self.seq.n)): self.pos = self.pos + 1; return self.seq.item(self.pos - 1)
        raise StopIteration
    def __iter__(self):
        if not isinstance(self.seq, FixedList): unsup("iteration over a sequence of symbolic length outside of a loop with an invariant")
        return self
class FixedList(SymList):
    """an ordinary list read at symbolic positions"""
    def __init__(self, l): self.l = l; self.off = 0; self.item = self.at
    n = property(lambda s: len(s.l))
    def at(self, k):
        for i, v in enumerate(self.l):
            if branch(cmp("==", k, i)): return v
        raise SymIndexError("list index out of range")
def sym_len(x):
    if hasattr(type(x), "symlen"): return x.symlen()
    return len(x)
def sym_iter(*a):
    if len(a) == 1 and isinstance(a[0], SymList): return SymIter(a[0])
    if len(a) == 1 and type(a[0]) in (list, tuple) and RUN.st is not None: return SymIter(FixedList(a[0]))
    return iter(*a)
def sym_range(*a):
    if not any(isinstance(ival(x), IP) for x in a): return range(*[ival(x) for x in a])
    if len(a) == 3: unsup("range with a step")
    lo, hi = (0, ival(a[0])) if len(a) == 1 else map(ival, a)
    n = hi - lo
    return SymList(n if branch(cmp(">", n, 0)) else 0, lambda k: mki(k + lo))
def sym_zip(*a, **k):
    s = [x for x in a if isinstance(x, SymList)]
    if not s: return zip(*a, **k)
    if len(s) < len(a): unsup("zip of symbolic and plain sequences")
    n = s[0].symlen()
    for x in s[1:]:
        if P.decide(RUN.st, cmp("==", ival(x.symlen()), ival(n))) is not True: unsup("zip of sequences of different lengths")
    return SymList(ival(n), lambda k: tuple(x[I(k)] if isinstance(k, IP) else x[k] for x in s))
def sym_enumerate(x, start=0):
    if not isinstance(x, SymList): return enumerate(x, start)
    return SymList(x.n - x.off, lambda k: (mki(k + start), x.item(k + x.off)))
class ListMeta(type):
    def __instancecheck__(c, x): return isinstance(x, list)
    def __subclasscheck__(c, x): return issubclass(x, list)
    def __call__(c, *a):
        if a and isinstance(a[0], SymList): return a[0].copy()
        return list(*a)
class List(list, metaclass=ListMeta): pass
BUILTINS = {"len": sym_len, "iter": sym_iter, "zip": sym_zip, "enumerate": sym_enumerate, "list": List, "range": sym_range}
SymList.symlen = lambda s: mki(s.n - s.off)
SymList.copy = lambda s: SymList(s.n, s.item, s.off)

# ---------------------------------------------------------------- loader of the real modules
MODS = {}
STUBS = {}
import copy as _copy
STUBS["copy"] = stub("copy", copy=lambda x: x.copy() if isinstance(x, A) else x if isinstance(x, (R, I, B)) else _copy.copy(x), deepcopy=lambda x: x.copy() if isinstance(x, A) else unsup("deepcopy"))
def load(name):
    """the real module eoxmagmod.NAME, executed on the symbolic numpy"""
    if name in STUBS: return STUBS[name]
    if name in MODS: return MODS[name]
    path = ROOT + name.replace(".", "/")
    ispkg = os.path.isdir(path)
    m = types.ModuleType(name); m.__package__ = name if ispkg else name.rpartition(".")[0]
    MODS[name] = m
    if ispkg: return m            # the package itself is not executed
    if not os.path.exists(path + ".py"):
        MODS.pop(name)
        if name.rpartition(".")[2].startswith("_py"): STUBS[name] = stub(name); return STUBS[name]
        raise ImportError(name)
    src = open(path + ".py").read()
    tree = Rewrite(name).visit(ast.parse(src)); ast.fix_missing_locations(tree)
    m.__dict__["__builtins__"] = {**vars(builtins), "__import__": importer, **BUILTINS}
    m.__dict__["_pv_enter_"] = enter; m.__dict__["_pv_var_"] = varargs; m.__file__ = path + ".py"
    try: exec(compile(tree, path + ".py", "exec"), m.__dict__)
    except BaseException: MODS.pop(name, None); raise
    return m
REAL = {"collections", "functools", "itertools", "operator", "datetime", "re", "os", "io", "warnings", "abc", "typing", "bisect", "logging"}
def importer(name, glb=None, loc=None, fromlist=(), level=0):
    if level:
        base = glb["__package__"].split("."); base = base[:len(base) - level + 1]
        full_ = ".".join(base + ([name] if name else []))
    else: full_ = name
    if full_.split(".")[0] == "eoxmagmod":
        m = load(full_)
        if fromlist:
            for f in fromlist:
                if not hasattr(m, f):
                    try: setattr(m, f, load(full_ + "." + f))
                    except ImportError: setattr(m, f, Missing(full_ + "." + f))
            return m
        return load("eoxmagmod")
    if full_ in ("numpy",): return NUMPY
    if full_ == "numpy.lib.stride_tricks": return STRIDES if fromlist else NUMPY
    if full_ == "math": return MATH
    if full_ in STUBS: return STUBS[full_]
    if full_.split(".")[0] in REAL: return builtins.__import__(name, None, None, fromlist, 0)
    return stub(full_)

# ---------------------------------------------------------------- inputs and results
def arr(name, shape, nan=False, readonly=True, kind="f"):
    """an arbitrary array"""
    nf = None
    def f(idx):
        k = list(flat(idx))
        if kind == "b": return B(boolapp(name, k))
        return R(app(name, *k) if k else rvar(name), boolapp("nan " + name, k) if nan else False)
    return A(f, shape, kind, label=name, readonly=readonly)
_bf = {}
def boolapp(name, k):
    if not k: return z3.Bool(name)
    key = (name, len(k))
    if key not in _bf: _bf[key] = z3.Function(name, *([z3.IntSort()] * len(k)), z3.BoolSort())
    return _bf[key](*[zi(i) for i in k])
def extents(r, names="n"):
    """r symbolic extents and the index of the arbitrary element"""
    ns = [ivar("%s%d" % (names, k)) for k in range(r)]; gs = [ivar("%s%d" % ("i", k)) for k in range(r)]
    for n, g in zip(ns, gs): RUN.st.assume(cmp("<=", 0, g)); RUN.st.assume(cmp("<", g, n))
    RUN.gen = gs
    return tuple(I(n) for n in ns), tuple(gs)
def dval(x):
    x = lift(x)
    return mkd(x.n, x.v) if isinstance(x, R) else real(ival(x))
def same(label, got, want, kind="post"):
    """equality of element values (with NaN)"""
    got, want = lift(got), lift(want)
    if isinstance(got, (B, bool)) or isinstance(want, (B, bool)):
        c, d = tob(got), tob(want); check(kind, label, and_(implies(c, d), implies(d, c))); return
    if isinf(got) or isinf(want):
        check(kind, label, got == want if isinf(got) and isinf(want) else False); return
    check(kind, label, eqgoal(dval(got), dval(want)))
def same_shape(label, got, want):
    if not isinstance(got, A): got = asarray(got)
    if len(got.shape) != len(want): fail("post", label, "rank %d instead of %d" % (len(got.shape), len(want))); return False
    for a, b in zip(got.shape, want):
        if isinstance(a, MaskAxis) or isinstance(b, MaskAxis):
            if not sameext(a, b): fail("post", label, "extent"); return False
        else: check("post", label, cmp("==", ival(a), ival(b)))
    return True

def aside(f):
    """what f assumes and decides is not kept"""
    if choose():
        if P.infeasible(RUN.st): raise Infeasible()
        f(); raise Cut()
def verify(res, name, cases, body, deadline=None, limit=4000):
    """cases: list of (label, arguments of body); obligations are logged under the function NAME"""
    for attempt in range(8):
        before = dict(LEARN); r = {"obligations": [], "functions": []}
        verify1(r, name, cases, body, deadline, limit)
        if LEARN == before: break
    res["obligations"] += r["obligations"]; res["functions"] += r["functions"]; res["stats"] = r["stats"]
def verify1(res, name, cases, body, deadline, limit):
    log = Log(); out = []; paths = 0; t0 = time.time(); RUN.failed = 0
    try:
        for label, args in cases:
            RUN.func = name + ("[%s]" % label if label else "")
            n0 = len(log.items)
            paths += explore(lambda: body(*args), log, RUN.func, limit, deadline)
            if len(log.items) == n0: log.add(RUN.func, "vacuity", "obligations are generated", False, "-", "no path reaches the postcondition", 0)
    except Enough: pass
    except Outside as e: out.append(e.why)
    except Unsupported as e: out.append(str(e))
    except (Cut, Infeasible): out.append("stray end of a path")
    except RecursionError: out.append("recursion limit")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        if isinstance(e, SymIndexError) or tb.filename.startswith(ROOT) and (linecache.getline(tb.filename, tb.lineno).strip() + " ").startswith("raise "):
            log.add(RUN.func, "exception", "no exception for the inputs of the contract", False, "-", "%s: %s (%s:%d)" % (type(e).__name__, e, tb.filename, tb.lineno), 0)
        else: out.append("%s: %s %s" % (type(e).__name__, e, traceback.format_exc(limit=-4)))
    finally: RUN.st = None
    if out:
        # out of reach: no verdict from this layer, the bounded layer decides
        res["functions"].append({"name": name, "kind": "python", "status": "out of reach of the verifier: not proved, left to the bounded layer", "why": out[0][:600]})
    else:
        res["obligations"] += log.items
        res["functions"].append({"name": name, "kind": "python", "status": "under contract", "paths": paths, "obligations": len(log.items)})
    res["stats"] = dict(P.STATS)
