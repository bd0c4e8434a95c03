"""Proof back ends: integer/boolean goals by z3 (then cvc5), real equalities by rewriting to a rational normal form (ring)."""
import time, itertools, math, subprocess, tempfile, os
from fractions import Fraction
import z3
from terms import *
import ring

STATS = {"z3": 0, "z3_time": 0.0, "ring": 0, "ring_time": 0.0, "cvc5": 0}
FACTS = {}           # array base name -> [ArrFact]
INTFACTS = {}        # int array base -> [function(idx, value IP) -> z3]
RELFACTS = {}        # array base -> function(list of idx IPs) -> list of z3 facts
DIVS = {}
def note_div(x, k, q): DIVS[q.key() if isinstance(q, IP) else q] = (x, k)

class State:
    __slots__ = ("cells", "arrays", "names", "pc", "frame", "touched", "touched_arr", "subst", "ghost")
    def __init__(self):
        self.cells = {}; self.arrays = {}; self.names = {}; self.pc = []; self.frame = 0
        self.touched = set(); self.touched_arr = set(); self.subst = {}; self.ghost = {}
    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells); s.arrays = dict(self.arrays); s.names = dict(self.names); s.pc = list(self.pc)
        s.frame = self.frame; s.touched = self.touched; s.touched_arr = self.touched_arr; s.subst = dict(self.subst); s.ghost = dict(self.ghost)
        return s
    def assume(self, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        self.pc.append(c)
        learn(self, c)

def learn(st, c):
    """equalities with a unit coefficient become rewrite rules of the integer arguments"""
    if z3.is_and(c):
        for k in c.children(): learn(st, k)
        return
    if z3.is_eq(c) and c.arg(0).sort() == z3.IntSort():
        l, r = (ZIP.get(c.arg(i).get_id(), (None, None))[1] if not z3.is_int_value(c.arg(i)) else c.arg(i).as_long() for i in (0, 1))
        if l is None or r is None: return
        eq_subst(st, l - r)

def eq_subst(st, d):
    d = isubst(d, st.subst)
    if not isinstance(d, IP): return
    g = 0
    for m, c in d.t.items():
        if m: g = math.gcd(g, c)
    if g > 1 and d.const() % g == 0: d = mk({m: c // g for m, c in d.t.items()})
    inner = set()
    for m in d.t:
        for a in m:
            if a in TRI_ARGS: inner |= {b for mm in TRI_ARGS[a].t for b in mm}
    for m, c in sorted(d.t.items(), key=lambda kv: -max(kv[0], default=-1)):
        if len(m) == 1 and abs(c) == 1 and m[0] not in TRI_ARGS and m[0] not in inner and sum(m[0] in mm for mm in d.t) == 1:
            rest = mk({k: v for k, v in d.t.items() if k != m})
            val = imul(-c, rest)
            st.subst = {k: isubst(v, {m[0]: val}) for k, v in st.subst.items()}
            st.subst[m[0]] = val
            return

def isubst(x, s):
    if not s or not isinstance(x, IP): return x
    hit = False
    for m in x.t:
        for a in m:
            if a in s or (a in TRI_ARGS and any(b in s for mm in TRI_ARGS[a].t for b in mm)): hit = True
    if not hit: return x
    r = 0
    for m, c in x.t.items():
        p = c
        for a in m:
            if a in s: p = p * s[a]
            elif a in TRI_ARGS: p = p * TRI(isubst(TRI_ARGS[a], s))
            else: p = p * IP({(a,): 1})
        r = r + p
    return r

class Arr:
    """array object: base function symbol, writes on top of it"""
    __slots__ = ("base", "writes", "size", "unit", "kind", "readonly", "freed", "label", "layout", "nanok", "extra", "stride")
    def __init__(self, base, size, unit=8, kind="double", readonly=False, label=None, layout=None):
        self.base = base; self.writes = (); self.size = size; self.unit = unit; self.kind = kind
        self.readonly = readonly; self.freed = False; self.label = label or base; self.layout = layout; self.nanok = False; self.extra = None; self.stride = None
    def clone(self):
        a = Arr.__new__(Arr)
        for k in Arr.__slots__: setattr(a, k, getattr(self, k))
        return a
    def write(self, idx, val):
        a = self.clone()
        ws = [w for w in self.writes if not (not isinstance(w[0] - idx, IP) and w[0] - idx == 0)]
        a.writes = tuple(ws) + ((idx, val),)
        return a

class D0: pass

def aread(st, a, idx):
    """value of a[idx] over the path condition of st"""
    import cexec
    res = None; pend = []
    idx = isubst(idx, st.subst) if isinstance(idx, IP) else idx
    for w, v in reversed(a.writes):
        d = idx - w
        d = isubst(d, st.subst)
        if not isinstance(d, IP):
            if d == 0: res = v; break
            continue
        c = cmp("==", d, 0)
        t = decide(st, c)
        if t is True: res = v; break
        if t is False: continue
        pend.append((c, v))
    if res is None: res = sel(a.base, idx)
    for c, v in reversed(pend): res = dite(c, v, res)
    return res

def aread_int(st, a, idx):
    res = None; pend = []
    for w, v in reversed(a.writes):
        d = isubst(idx - w, st.subst)
        if not isinstance(d, IP):
            if d == 0: res = v; break
            continue
        c = cmp("==", d, 0); t = decide(st, c)
        if t is True: res = v; break
        if t is False: continue
        pend.append((c, v))
    if res is None and a.base in FACTS: res = lookup(st, a.base, idx)
    if res is None:
        x = z3.Function(a.base, z3.IntSort(), z3.IntSort())(zi(idx)); SELS[x.get_id()] = (x, a.base, idx); res = iz(x)
    for c, v in reversed(pend): res = iz(z3.If(c, zi(v), zi(res)))
    return res

def dite(c, a, b):
    import cexec
    if isinstance(a, cexec.D) or isinstance(b, cexec.D):
        n = or_(and_(c, cexec.nanof(a)), and_(not_(c), cexec.nanof(b)))
        return cexec.mkd(n, rite(c, cexec.valof(a), cexec.valof(b)))
    return rite(c, a, b)

# ------------------------------------------------------------------ z3
_hasreal = {}
_coll = {}
def collect1(e):
    """(tri arguments, array elements, applications) of a formula, cached"""
    r = _coll.get(e.get_id())
    if r is not None: return r[1]
    seen = set(); tri = []; sels = []; apps = []
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            d = x.decl()
            if d.arity() > 0 and d.kind() == z3.Z3_OP_UNINTERPRETED:
                if d.name() == "TRI": tri.append(x.arg(0))
                elif i in SELS: sels.append(SELS[i])
                elif i in APPS: apps.append(APPS[i])
            elif i in APPS: apps.append(APPS[i])
            stack.extend(x.children())
    r = (tri, sels, apps)
    _coll[e.get_id()] = (e, r)
    return r
def collect(e, seen, tri, sels, apps):
    t, s, a = collect1(e)
    for x in t:
        if ("t", x.get_id()) not in seen: seen.add(("t", x.get_id())); tri.append(x)
    for x in s:
        if x[0].get_id() not in seen: seen.add(x[0].get_id()); sels.append(x)
    for x in a:
        if x[0].get_id() not in seen: seen.add(x[0].get_id()); apps.append(x)

APPAX = {}       # app name -> function(RT args) -> list of z3 facts
_tri1 = {}; _tri2 = {}
def tri_axioms(args):
    ax = []; F = TRIF
    for z in args:
        r = _tri1.get(z.get_id())
        if r is None:
            r = _tri1[z.get_id()] = (z, [F(z) + c * z + c * (c + 1) // 2 >= 0 for c in (-3, -2, -1, 1, 2, 3)] + [F(z) >= 0, z3.Implies(z >= 0, F(z) >= z), z3.Implies(z3.And(z >= 0, z <= 46340), z3.And(F(z) <= 46340 * 46341 // 2, 2 * F(z) <= 46341 * z)),
               z3.Implies(z >= 2, F(z) >= z + 1), z3.Implies(z == 0, F(z) == 0), z3.Implies(z == 1, F(z) == 1), z3.Implies(z == -1, F(z) == 0), z3.Implies(z3.And(z >= 0, z < 2**31), F(z) < 2**61)])
        ax += r[1]
    for x, y in itertools.combinations(sorted(args, key=lambda z: z.get_id()), 2):
        r = _tri2.get((x.get_id(), y.get_id()))
        if r is None:
            l = []
            for p, q in ((x, y), (y, x)):
                for c in (-3, -2, -1, 0, 1, 2, 3):
                    # TRI(p+c) = TRI(p) + c*p + c(c+1)/2
                    l.append(z3.Implies(z3.And(p + c >= 0, p + c <= q), F(p) + c * p + c * (c + 1) // 2 <= F(q)))
            r = _tri2[(x.get_id(), y.get_id())] = (x, y, l)
        ax += r[2]
    return ax

_axm = {}
def axioms(fs, rounds=2):
    key = frozenset(f.get_id() for f in fs)
    r = _axm.get(key)
    if r is None:
        if len(_axm) > 20000: _axm.clear()
        r = _axm[key] = (axioms_(fs, rounds), list(fs))
    return r[0]
def axioms_(fs, rounds=2):
    out = []; done_t = set(); done_a = set(); done_s = set(); scan = []
    pool = list(fs)
    for _ in range(rounds):
        seen = set(); tri = []; sels = []; apps = []
        for f in pool + scan: collect(f, seen, tri, sels, apps)
        new = []; plain = []       # plain: facts with no terms which are not in the formulas
        tids = {z.get_id(): z for z in tri}
        if set(tids) - done_t:
            done_t |= set(tids); plain = tri_axioms(list(tids.values()))
        by = {}
        for e, base, idx in sels: by.setdefault(base, {})[idx.key() if isinstance(idx, IP) else idx] = idx
        for base, idxs in by.items():
            k = (base, frozenset(idxs))
            if base in RELFACTS and k not in done_s:
                done_s.add(k); new += RELFACTS[base](list(idxs.values()))
        for e, t in apps:
            if t.id in done_a: continue
            done_a.add(t.id)
            f = APPAX.get(t.a[0])
            if f: new += [zb(x) for x in f(*t.a[1:])]
        out += plain + new; scan += new
        if not new: break
    return out

def isreal(f):
    i = f.get_id()
    if i in _hasreal: return _hasreal[i][1]
    seen = set(); stack = [f]; r = False
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.sort() == z3.RealSort(): r = True; break
        stack.extend(x.children())
    _hasreal[i] = (f, r)
    return r

_dec = {}
def decide(st, c, timeout=1500):
    """True / False / None: the path condition implies c / not c / neither is shown"""
    if isinstance(c, bool): return c
    ids = tuple(p.get_id() for p in st.pc); cid = c.get_id()
    if cid in ids: return True
    n = not_(c); nid = n.get_id()
    if nid in ids: return False
    key = (frozenset(ids), cid)
    hit = _dec.get(key)
    if hit is not None: return hit[0]
    r = None
    m = quick_model(st.pc, c)
    if m is not True and entails(st.pc, c, timeout): r = True
    elif m is not False and entails(st.pc, n, timeout): r = False
    _dec[key] = (r, c, n, list(st.pc))
    return r

def quick_model(pc, c):
    return None

def relevant(pc, goal):
    return pc

_solvers = {}       # incremental solvers by path condition
_order = []
def solver_for(ps, timeout):
    k = tuple(p.get_id() for p in ps)
    s = _solvers.get(k)
    if s is None:
        s = z3.SolverFor("QF_UFNIA") if False else z3.Solver()
        s.set("random_seed", 1)
        for f in ps: s.add(f)
        ax = axioms(ps)
        for a in ax: s.add(a)
        _solvers[k] = s = (s, set(a.get_id() for a in ax), list(ps), ax)
        _order.append(k)
        if len(_order) > 40: _solvers.pop(_order.pop(0), None)
    s[0].set("timeout", timeout)
    return s

_abs = {}
def abstract(e):
    """with the applications of functions replaced by unknowns (one per application): weaker"""
    i = e.get_id(); r = _abs.get(i)
    if r is not None: return r[1]
    if not z3.is_app(e) or e.num_args() == 0: v = e
    elif i in APPS: v = unknown(e, i)
    else:
        ch = [abstract(x) for x in e.children()]
        v = e if all(x.eq(y) for x, y in zip(ch, e.children())) else rebuild(e, ch)
    _abs[i] = (e, v)
    return v
def unknown(e, i):
    """the same unknown for the applications whose arguments have the same rational normal form"""
    try: r = ring.rat(APPS[i][1])
    except Exception: return z3.Const("abs!%d" % i, e.sort())
    c = ring.const_of(r)
    if c is not None: return z3.RealVal(str(c))
    if not r.d and len(r.n) == 1:
        (m, c), = r.n.items()
        if c == -1: return -z3.Real("abs!%s" % (m,))
        if c == 1: return z3.Real("abs!%s" % (m,))
    return z3.Real("abs!%s" % (r.key(),))
def rebuild(e, ch):
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD: return z3.Sum(ch)
    if k == z3.Z3_OP_MUL: return z3.Product(ch)
    if k == z3.Z3_OP_AND: return z3.And(ch)
    if k == z3.Z3_OP_OR: return z3.Or(ch)
    return e.decl()(*ch)
def manyapps(fs):
    seen = set(); tri, sels, apps = [], [], []
    for f in fs: collect(f, seen, tri, sels, apps)
    return len(apps) > 12
def abstracted(fs, timeout=1500):
    """the formulas are contradictory whatever the values of the functions are (the facts about them hold)"""
    a = axioms(fs); s = z3.Solver(); s.set("timeout", timeout); s.set("random_seed", 1)
    for f in list(fs) + list(a): s.add(abstract(f))
    return s.check() == z3.unsat
def entails(pc, goal, timeout=5000, full=False):
    """pc |= goal by z3"""
    if goal is True: return True
    if goal is False: goal = z3.BoolVal(False)
    t0 = time.time(); STATS["z3"] += 1
    gr = isreal(goal)
    if gr and manyapps(list(pc) + [goal]) and abstracted(list(pc) + [z3.Not(goal)], 300): STATS["z3_time"] += time.time() - t0; return True
    stages = [[p for p in pc if not isreal(p)]] if not gr else []
    if gr or len(stages[0]) != len(pc): stages.append(pc)
    r = False
    for ps in stages:
        s, have, _, _ = solver_for(ps, min(timeout, 700))
        neg = z3.Not(goal)
        s.push()
        s.add(neg)
        for a in axioms(list(ps) + [neg]):
            if a.get_id() not in have: s.add(a)
        res = s.check()
        s.pop()
        if res != z3.unsat and gr and abstracted(list(ps) + [neg]): res = z3.unsat
        if res == z3.unknown:
            s = z3.Solver(); s.set("timeout", timeout); s.set("random_seed", 1)
            fs = list(ps) + [neg]
            for f in fs: s.add(f)
            for a in axioms(fs): s.add(a)
            res = s.check()
        if res == z3.unsat: r = True; break
    STATS["z3_time"] += time.time() - t0
    return r

def smt_cvc5(pc, goal, timeout=20):
    s = z3.Solver()
    fs = list(pc) + [z3.Not(goal)]
    for f in fs + axioms(fs): s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    STATS["cvc5"] += 1
    try:
        pr = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (timeout * 1000), "--nl-ext-tplanes", "-"], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 5)
        return pr.stdout.decode().strip().startswith("unsat")
    except Exception:
        return False

# ------------------------------------------------------------------ array facts
class Layout:
    """index maps: dims = names of the indices, lin(*k) -> linear index, invert(st, idx) -> list of candidate tuples,
    dom(*k) -> conditions under which the tuple is a valid index"""
    pass
class L1(Layout):
    n = 1; name = "1d"
    def lin(self, k): return k
    def dom(self, k): return [cmp(">=", k, 0)]
    def invert(self, st, idx): return [(idx,)]
class LPair(Layout):
    n = 1
    def __init__(self, c): self.c = c; self.name = "pair%d" % c
    def lin(self, k): return 2 * k + self.c
    def dom(self, k): return [cmp(">=", k, 0)]
    def invert(self, st, idx):
        d = idx - self.c
        if all(c % 2 == 0 for c in terms_of(d).values()): return [(mk({m: c // 2 for m, c in terms_of(d).items()}),)]
        return []
def tri_split(st, idx):
    """(i, j) with idx = TRI(i)+j, 0 <= j <= i"""
    out = []; seen = set()
    cands = []
    for m in terms_of(idx):
        if len(m) == 1 and m[0] in TRI_ARGS: cands.append(TRI_ARGS[m[0]])
    if not isinstance(idx, IP):
        k = 0
        while (k + 1) * (k + 2) // 2 <= idx: k += 1
        return [(k, idx - TRI(k))]
    if not cands: cands = [0]
    for base in cands:
        for c in (0, -1, 1, -2, 2, -3):
            i = base + c; j = idx - TRI(i)
            if isinstance(j, IP) and any(len(m) == 1 and m[0] in TRI_ARGS for m in j.t): continue
            k = (i.key() if isinstance(i, IP) else i)
            if k in seen: continue
            seen.add(k)
            if decide(st, and_(cmp("<=", 0, j), cmp("<=", j, i))) is True: return [(i, j)]
    return out
class LTri(Layout):
    n = 2; name = "tri"
    def lin(self, i, j): return TRI(i) + j
    def dom(self, i, j): return [cmp("<=", 0, j), cmp("<=", j, i)]
    def invert(self, st, idx): return tri_split(st, idx)
class LTriPair(Layout):
    n = 2
    def __init__(self, c): self.c = c; self.name = "tripair%d" % c
    def lin(self, i, j): return 2 * (TRI(i) + j) + self.c
    def dom(self, i, j): return [cmp("<=", 0, j), cmp("<=", j, i)]
    def invert(self, st, idx):
        h = LPair(self.c).invert(st, idx)
        return tri_split(st, h[0][0]) if h else []
class LMatPair(Layout):
    """row-major [n][m] pairs"""
    n = 2
    def __init__(self, m, c): self.m = m; self.c = c; self.name = "matpair%d" % c
    def lin(self, i, j): return 2 * (i * self.m + j) + self.c
    def dom(self, i, j): return [cmp("<=", 0, i), cmp("<=", 0, j), cmp("<", j, self.m)]
    def invert(self, st, idx):
        h = LPair(self.c).invert(st, idx)
        if not h: return []
        d = h[0][0]
        if not isinstance(self.m, IP) or len(self.m.t) != 1: return []
        (mm, mc), = self.m.t.items()
        q = {}; r = {}
        for m, c in terms_of(d).items():
            if mm and all(m.count(a) >= mm.count(a) for a in mm) and c % mc == 0:
                k = list(m)
                for a in mm: k.remove(a)
                q[tuple(k)] = c // mc
            else: r[m] = c
        q, r = mk(q), mk(r)
        if decide(st, and_(cmp("<=", 0, r), cmp("<", r, self.m))) is True: return [(q, r)]
        return []

class ArrFact:
    """forall k in dom with region(*k): base[lin(k)] == val(*k)"""
    __slots__ = ("layout", "region", "val", "key")
    def __init__(self, layout, region, val, key=""): self.layout = layout; self.region = region; self.val = val; self.key = key

class ArrClaim:
    """obligation: forall k in dom with region(*k): arr[off + lin(k)] == val(*k)"""
    def __init__(self, obj, off, layout, region, val, what=""):
        self.obj = obj; self.off = off; self.layout = layout; self.region = region; self.val = val; self.what = what

class Pos:
    """t > 0; as an assumption also known by its form"""
    def __init__(self, t): self.t = t
    def assume(self, st):
        st.assume(cmp(">", self.t, 0)); st.ghost["pos"] = st.ghost.get("pos", ()) + (lead(self.t),)
def lead(t):
    """(sign, form) of a sum up to a positive factor"""
    k, m = _mono(t)
    return (1 if k > 0 else -1 if k < 0 else 0), m
class NonNeg:
    """obligation: term >= 0"""
    def __init__(self, t): self.t = t
class RealGoal:
    def __init__(self, kind, a, b, what=""): self.kind = kind; self.a = a; self.b = b; self.what = what

def lookup(st, base, idx):
    """value of base[idx] from the facts known about the base, or None"""
    for f in FACTS.get(base, ()):
        for k in f.layout.invert(st, idx):
            ok = True
            for c in f.layout.dom(*k) + [f.region(*k)]:
                if c is True: continue
                if c is False or decide(st, c) is not True: ok = False; break
            if ok: return f.val(*k)
    return None

def intfacts(st, base, idx):
    """the facts known about an element of an integer array"""
    x = iz(z3.Function(base, z3.IntSort(), z3.IntSort())(zi(idx)))
    return [implies(and_(*(f.layout.dom(*k) + [f.region(*k)])), cmp("==", x, f.val(*k))) for f in FACTS.get(base, ()) for k in f.layout.invert(st, idx)]

class Split(Exception):
    def __init__(self, c): self.c = c

def normal(st, t, memo=None, split=True):
    """rewrite array elements by facts, conditionals by the path condition, integer arguments by known equalities"""
    if memo is None: memo = {}
    if not isinstance(t, RT): 
        return isubst(t, st.subst) if isinstance(t, IP) else t
    r = memo.get(t.id)
    if r is not None: return r
    o, a = t.op, t.a
    if o in ("const", "var"): r = t
    elif o == "int": r = real(isubst(a[0], st.subst))
    elif o == "add": r = radd(normal(st, a[0], memo, split), normal(st, a[1], memo, split))
    elif o == "mul": r = rmul(normal(st, a[0], memo, split), normal(st, a[1], memo, split))
    elif o == "div": r = rdiv(normal(st, a[0], memo, split), normal(st, a[1], memo, split))
    elif o == "neg": r = rneg(normal(st, a[0], memo, split))
    elif o == "sel":
        i = isubst(a[1], st.subst)
        v = lookup(st, a[0], i)
        r = normal(st, v, memo, split) if v is not None else sel(a[0], i)
        if v is None:
            c = splitcond(st, a[0], i)
            if c is not None and split: raise Split(c)
    elif o == "ite":
        d = decide(st, a[0])
        if d is True: r = normal(st, a[1], memo, split)
        elif d is False: r = normal(st, a[2], memo, split)
        elif split: raise Split(a[0])
        else: r = t
    elif o == "app":
        r = app(a[0], *[normal(st, x, memo, split) if isinstance(x, (RT, IP)) else x for x in a[1:]])
        if TRIGBASE and a[0] in ("COS", "SIN"): r = multiple(st, r)
    else: raise Exception(o)
    memo[t.id] = r
    return r

TRIGBASE = []        # terms x for which COS(k x), SIN(k x) are written as CM(x, k), SM(x, k)
def multiple(st, t):
    arg = ring.rat(t.a[1])
    for b in TRIGBASE:
        q = ring.ratmul(arg, ring.ratinv(ring.rat(normal(st, b))))
        if q.d: continue
        k = 0; ok = True; sign = 1
        for m, c in q.n.items():
            p = c
            for at, e in m:
                w = ring.ATRT[at]
                if not isinstance(w, tuple): ok = False; break
                for _ in range(e): p = (int(p) if not isinstance(p, IP) else p) * IP({(w[1],): 1})
            if not ok or c.denominator != 1: ok = False; break
            k = k + (p if isinstance(p, IP) else int(p))
        if not ok: continue
        if decide(st, cmp("<", k, 0)) is True: k = 0 - k; sign = -1
        elif decide(st, cmp(">=", k, 0)) is not True: continue
        if not isinstance(k, IP) and k == 1: return t if sign > 0 else t
        r = app("CM" if t.a[0] == "COS" else "SM", b, k)
        return rneg(r) if sign < 0 and t.a[0] == "SIN" else r
    return t

def splitcond(st, base, idx):
    """a region condition worth a case split"""
    for f in FACTS.get(base, ()):
        for k in f.layout.invert(st, idx):
            if any(c is False or (c is not True and decide(st, c) is not True) for c in f.layout.dom(*k)): continue
            c = f.region(*k)
            if isinstance(c, bool): continue
            if decide(st, c) is None: return c
    return None

# spec functions: name -> Spec(level(args), unfold(st, args) -> (RT, order) or None)
SPECS = {}
class Spec:
    def __init__(self, name, level, unfold, concrete=None, base=None):
        self.name = name; self.level = level; self.unfold = unfold; self.base = base; SPECS[name] = self   # base: conditions of the base cases
    def __call__(self, *args): return app(self.name, *args)

def apps_in(t, out, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, RT) or x.id in seen: continue
        seen.add(x.id)
        if x.op == "app" and x.a[0] in SPECS: out.append(x)
        stack.extend(y for y in x.a if isinstance(y, RT))

def replace(t, m, memo):
    if not isinstance(t, RT): return t
    if t in m: return m[t]
    r = memo.get(t.id)
    if r is not None: return r
    if t.op in ("const", "var", "int", "sel"): r = t
    elif t.op == "add": r = radd(replace(t.a[0], m, memo), replace(t.a[1], m, memo))
    elif t.op == "mul": r = rmul(replace(t.a[0], m, memo), replace(t.a[1], m, memo))
    elif t.op == "div": r = rdiv(replace(t.a[0], m, memo), replace(t.a[1], m, memo))
    elif t.op == "neg": r = rneg(replace(t.a[0], m, memo))
    elif t.op == "ite": r = rite(t.a[0], replace(t.a[1], m, memo), replace(t.a[2], m, memo))
    else: r = app(t.a[0], *[replace(x, m, memo) for x in t.a[1:]])
    memo[t.id] = r
    return r

def diffs(a, b):
    """argument differences if all are constants, else None"""
    out = []
    for x, y in zip(a, b):
        if isint(x) and isint(y):
            d = x - y
            if isinstance(d, IP): return None
            out.append(d)
        elif x is not y and x != y: return None
    return out

def unfolded(st, t, limit=60):
    """unfold the spec functions towards the smallest index of each family in the term"""
    for _ in range(limit):
        fs = []; apps_in(t, fs, set())
        target = None
        for x in fs:
            sp = SPECS[x.a[0]]
            args = x.a[1:]
            lv = sp.level(*args)
            if lv is None: u = sp.unfold(st, *args); need = True
            elif not isinstance(lv, IP): u = sp.unfold(st, *args); need = True
            else:
                low = None
                for y in fs:
                    if y.a[0] != x.a[0] or y is x: continue
                    if diffs(args, y.a[1:]) is None: continue
                    d = lv - sp.level(*y.a[1:])
                    if not isinstance(d, IP) and d > 0: low = max(low or 0, d)
                if low is None: continue
                u = sp.unfold(st, *args)
                need = u is not None and low >= u[1]
            if u is not None and need:
                k = lv if not isinstance(lv, IP) else None
                target = (x, u[0]) if target is None or better(lv, target[2]) else target[:2]
                target = target + (lv,) if len(target) == 2 else target
        if target is None: return t
        t = replace(t, {target[0]: normal(st, target[1], split=False)}, {})
    return t
def better(a, b):
    if a is None or b is None: return False
    d = a - b
    return not isinstance(d, IP) and d > 0

class Fail(Exception): pass
def prove_eq(st, a, b, depth=0, budget=None):
    """a == b over the path condition; returns (True, '') or (False, residual)"""
    STATS["ring"] += 1
    t0 = time.time()
    try:
        return _prove_eq(st, a, b, 0)
    except (ring.TooBig, ZeroDivisionError) as e:
        return False, "normal form: %s" % type(e).__name__
    finally:
        STATS["ring_time"] += time.time() - t0

LIGHT = {}
def light(t):
    """normal form by associativity and commutativity, products collected to monomials; sums are not multiplied out"""
    r = LIGHT.get(t.id)
    if r is not None: return r
    r = LIGHT[t.id] = _sum(t)
    return r
LIDS = {}
def lid(x): return LIDS.setdefault(x, len(LIDS))
def _sum(t):
    acc = {}
    def go(t, c):
        if t.op == "add": go(t.a[0], c); go(t.a[1], c)
        elif t.op == "neg": go(t.a[0], -c)
        else:
            k, m = _mono(t)
            if len(m) == 1 and m[0][1] == 1 and m[0][2] == 0 and m[0][0] in LSUMS and (c * k) in (1, -1):      # a sum times +-1
                for m2, k2 in LSUMS[m[0][0]][1]: acc[m2] = acc.get(m2, 0) + c * k * k2
            elif k != 0: acc[m] = acc.get(m, 0) + c * k
    go(t, 1)
    return ("sum", tuple(sorted((m, k) for m, k in acc.items() if k != 0)))
LSUMS = {}
def _mono(t):
    """(coefficient, sorted ((atom, positive power, negative power), ...))"""
    coef = Fraction(1); pw = {}
    def go(t, e):
        nonlocal coef
        if t.op == "const":
            if t.a[0] == 0 and e < 0: pw["0"] = (0, 1)
            else: coef = coef * (t.a[0] if e > 0 else 1 / t.a[0])
        elif t.op == "neg": coef = -coef; go(t.a[0], e)
        elif t.op == "mul": go(t.a[0], e); go(t.a[1], e)
        elif t.op == "div": go(t.a[0], e); go(t.a[1], -e)
        else:
            if t.op == "add":
                s = light(t)
                if len(s[1]) == 0: coef = coef * 0 if e > 0 else coef; return
                lead = s[1][0][1]                    # sums up to a constant factor
                s = ("sum", tuple((m, k / lead) for m, k in s[1])); coef = coef * (lead if e > 0 else 1 / lead)
                at = lid(s); LSUMS[at] = s
            elif t.op == "ite": at = lid(("ite", akey(t.a[0]), light(t.a[1]), light(t.a[2])))
            else: at = lid((t.op,) + tuple(light(x) if isinstance(x, RT) else akey(x) for x in t.a))
            p, n = pw.get(at, (0, 0)); pw[at] = (p + 1, n) if e > 0 else (p, n + 1)
    go(t, 1)
    return coef, tuple(sorted((k, p, n) for k, (p, n) in pw.items() if k != "0")) + ((("0", 0, 1),) if "0" in pw else ())
MAXSPLIT = 7
def _prove_eq(st, a, b, depth):
    if infeasible(st): return True, ""
    try:
        if isinstance(a, RT) and isinstance(b, RT) and light(a) == light(b): return True, ""
        resolve_ites(st, a, b)
        t = normal(st, a - b if isinstance(a, RT) or isinstance(b, RT) else real(a) - real(b))
        if not isinstance(t, RT): t = real(t)
        if ring.rzero(t): return True, ""
        u = unfolded(st, t)
        if u is not t:
            u = normal(st, u)
            if ring.rzero(u): return True, ""
            t = u
        # conditionals below the spec functions
        for extra in EXTRA:
            v = extra(st, t)
            if v is not None and ring.rzero(v): return True, ""
        base_split(st, t)
        return False, show(t)[:600] if len(show(t)) < 3000 else "(large) " + show(t)[:300]
    except Split as s:
        if depth >= MAXSPLIT: return False, "too many cases: " + str(s.c)[:200]
        for c in (s.c, not_(s.c)):
            s2 = st.copy(); s2.assume(c); tighten(s2)
            ok, why = _prove_eq(s2, a, b, depth + 1)
            if not ok: return False, "case %s: %s" % (str(c)[:80], why)
        return True, ""
def merge_floors(st, t):
    """with the floors of equal arguments identified, or None"""
    seen = set(); atoms = []
    def walk(x):
        if isinstance(x, RT):
            if x.id in seen: return
            seen.add(x.id)
            for y in x.a: walk(y)
        elif isinstance(x, IP):
            for m in x.t:
                for a in m:
                    if a in FLOORS and a not in atoms: walk(FLOORS[a]); atoms.append(a)
    walk(t)
    if len(atoms) < 2: return None
    sub = {}; s = st.copy()
    for i, a in enumerate(atoms):          # those inside of the argument of a come first
        for b in atoms[:i]:
            if b in sub: continue
            d = normal(s, FLOORS[a] - FLOORS[b])
            if ring.rzero(d if isinstance(d, RT) else real(d)): sub[a] = IP({(b,): 1}); s.subst = {**st.subst, **sub}; break
    return normal(s, t) if sub else None
EXTRA = [merge_floors]
def resolve_ites(st, *ts):
    """conditional integers: known, or by cases"""
    stack = [t for t in ts if isinstance(t, (RT, IP))]; seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, RT):
            if x.id in seen: continue
            seen.add(x.id); stack.extend(y for y in x.a if isinstance(y, (RT, IP)))
            continue
        for m in isubst(x, st.subst).t if isinstance(isubst(x, st.subst), IP) else ():
            for at in m:
                k = ATOMS[at][1]
                if isinstance(k, tuple) and k[0] == "z" and z3.is_app_of(ATOMS[at][0], z3.Z3_OP_ITE):
                    c, p, q = ATOMS[at][0].children()
                    d = decide(st, c)
                    if d is None: raise Split(c)
                    eq_subst(st, IP({(at,): 1}) - iz(p if d else q))

def base_split(st, t):
    """case distinction on the base cases of a spec function which cannot be unfolded"""
    fs = []; apps_in(t, fs, set())
    for x in fs:
        sp = SPECS[x.a[0]]
        if sp.base is None or sp.unfold(st, *x.a[1:]) is not None: continue
        for c in sp.base(*x.a[1:]):
            if isinstance(c, bool): continue
            if decide(st, c) is None: raise Split(c)

_inf = {}
def infeasible(st):
    k = tuple(p.get_id() for p in st.pc)
    if k not in _inf: _inf[k] = (entails(st.pc, z3.BoolVal(False), 1500), list(st.pc))
    return _inf[k][0]

def tighten(st):
    """discover equalities between integer atoms implied by the path condition (bounds met)"""
    ats = set()
    for p in st.pc:
        stack = [p]
        while stack:
            x = stack.pop()
            ip = ZIP.get(x.get_id())
            if ip is not None:
                for m in ip[1].t:
                    for at in m:
                        if at not in TRI_ARGS and at not in st.subst: ats.add(at)
                continue
            stack.extend(x.children())
    last = st.pc[-1] if st.pc else None
    cands = sorted(ats)
    if last is None: return
    # atoms of the last condition against the others
    la = set(); stack = [last]
    while stack:
        x = stack.pop(); ip = ZIP.get(x.get_id())
        if ip is not None:
            for m in ip[1].t:
                for at in m:
                    if at in TRI_ARGS: la |= {b for mm in TRI_ARGS[at].t for b in mm}
                    else: la.add(at)
            continue
        stack.extend(x.children())
    m = model(st)
    if m is None: return
    for x in sorted(la, reverse=True):
        if x in st.subst: continue
        if pinned(st, m, x): continue
        for y in cands:
            if y == x or y in st.subst: continue
            vx, vy = m.eval(ATOMS[x][0], True), m.eval(ATOMS[y][0], True)
            try: d = vx.as_long() - vy.as_long()
            except Exception: continue
            if abs(d) > 2: continue
            e = ATOMS[x][0] == ATOMS[y][0] + d
            if entails(st.pc, e, 1000):
                eq_subst(st, IP({(x,): 1}) - IP({(y,): 1}) - d); break

def pinned(st, m, x):
    """the atom x has one value on the path"""
    try: v = m.eval(ATOMS[x][0], True).as_long()
    except Exception: return False
    if abs(v) > 8 or not entails(st.pc, ATOMS[x][0] == v, 1000): return False
    eq_subst(st, IP({(x,): 1}) - v)
    return True

def atoms_of_cond(c):
    out = set(); stack = [c]
    while stack:
        x = stack.pop(); ip = ZIP.get(x.get_id())
        if ip is not None:
            for m in ip[1].t:
                for at in m:
                    if at in TRI_ARGS: out |= {b for mm in TRI_ARGS[at].t for b in mm}
                    else: out.add(at)
            continue
        stack.extend(x.children())
    return out

def pin(st, c):
    """integers which the new condition c fixes to a constant"""
    if isreal(c): return
    la = [x for x in atoms_of_cond(c) if x not in st.subst and not isinstance(ATOMS[x][1], tuple)]
    if not la: return
    m = model(st)
    if m is None: return
    for x in la: pinned(st, m, x)

def model(st):
    s = z3.Solver(); s.set("timeout", 1500)
    fs = [p for p in st.pc if not isreal(p)]
    for f in fs + axioms(fs): s.add(f)
    if s.check() == z3.sat: return s.model()
    return None

def prove_bool(st, g, timeout=6000):
    """returns (ok, backend, detail)"""
    if g is True: return True, "syntactic", ""
    if isinstance(g, bool): g = z3.BoolVal(g)
    if z3.is_and(g):
        for c in g.children():
            r = prove_bool(st, c, timeout)
            if not r[0]: return r
        return True, "z3", ""
    d = decide(st, g)
    if d is True: return True, "z3", ""
    if entails(st.pc, g, timeout): return True, "z3", ""
    g2 = znormal(st, g)
    if g2 is not None and entails(st.pc, g2, timeout): return True, "z3+facts", ""
    if prove_ites(st, g, HARD[0]): return True, "z3", ""
    if smt_cvc5(st.pc, g2 if g2 is not None else g, 10): return True, "cvc5", ""
    return False, "z3", "not valid on the path: " + counter(st, g)

HARD = [0]       # time limit [ms] of the case distinctions (set by the contract)
def ifconds(e, seen, out):
    if e.get_id() in seen: return
    seen.add(e.get_id())
    for c in e.children(): ifconds(c, seen, out)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and not any(c.eq(e.arg(0)) for c in out): out.append(e.arg(0))
def floors(fs):
    """the integer parts of reals as integers (the reals no longer matter when they occur nowhere else)"""
    seen = set(); out = []
    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_INT: out.append(e)
        for c in e.children(): walk(c)
    for f in fs: walk(f)
    ax = []
    for k, e in enumerate(out):
        v = z3.Int("floor!%d" % k); x = e.arg(0)
        ax.append((e, v, x))
    return ax
def prove_ites(st, g, timeout, depth=4):
    """case distinctions on the conditions of the integer terms, floor(x) as an integer"""
    if not timeout: return False
    fs = list(st.pc) + [g]
    ax = floors(fs)
    sub = [(e, v) for e, v, x in ax]
    hyp = [z3.substitute(f, *sub) if sub else f for f in fs]
    goal = hyp.pop()
    for e, v, x in ax: hyp += bounds(x, v, st.pc)
    import time as _t
    def go(hyp, goal, depth):
        conds = []; ifconds(goal, set(), conds)
        if depth and conds:
            c = conds[0]
            for b in (True, False):
                h = hyp + [c if b else z3.Not(c)]
                q = z3.Solver(); q.set("timeout", 2000); q.add(*h)
                if q.check() == z3.unsat: continue
                if not go(h, z3.simplify(z3.substitute(goal, (c, z3.BoolVal(b)))), depth - 1): return False
            return True
        q = z3.Solver(); q.set("timeout", timeout); q.add(*hyp); q.add(z3.Not(goal))
        t0 = _t.time(); r = q.check() == z3.unsat; STATS["z3"] += 1; STATS["z3_time"] += _t.time() - t0
        return r
    return go(hyp, goal, depth)
def bounds(x, v, pc):
    """v = floor(x): for an unconstrained combination, v <= x < v + 1"""
    return [z3.ToReal(v) <= x, x < z3.ToReal(v) + 1]

def znormal(st, g):
    """rewrite the array elements of a formula by the facts"""
    seen = set(); tri = []; sels = []; apps = []
    fs = [g]
    collect(g, seen, tri, sels, apps)
    sub = []
    for e, base, idx in sels:
        if e.sort() != z3.RealSort():
            v = lookup(st, base, isubst(idx, st.subst) if isinstance(idx, IP) else idx)
            if v is not None: sub.append((e, zi(v)))
            continue
        try: v = normal(st, sel(base, idx), split=False)
        except Exception: continue
        if v is not sel(base, idx): sub.append((e, zr(v)))
    return z3.substitute(g, *sub) if sub else None

def counter(st, g):
    s = z3.Solver(); s.set("timeout", 2000)
    fs = list(st.pc) + [z3.Not(g)]
    for f in fs + axioms(fs): s.add(f)
    r = s.check()
    if r == z3.sat:
        m = s.model()
        return "counter-model " + ", ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:400]
    return str(r) + " goal " + str(g)[:300]

def prove_claim(st, goal):
    """(ok, backend, detail)"""
    if isinstance(goal, ArrClaim):
        ks = tuple(fresh_int("k") for _ in range(goal.layout.n))
        s = st.copy()
        for c in goal.layout.dom(*ks) + [goal.region(*ks)]:
            if c is False: return True, "syntactic", ""
            s.assume(c)
        if infeasible(s): return True, "z3", ""
        m = model(s)
        if m is not None:
            for q in ks:
                (at,), = q.t.keys()
                if at not in s.subst: pinned(s, m, at)
        arr = s.arrays[goal.obj]
        if arr.kind == "int":
            at = goal.off + goal.layout.lin(*ks)
            return prove_bool(s, implies(and_(*intfacts(s, arr.base, at)), cmp("==", aread_int(s, arr, at), goal.val(*ks))))
        v = aread(s, arr, goal.off + goal.layout.lin(*ks))
        import cexec
        if isinstance(v, cexec.D):
            ok, be, why = prove_bool(s, not_(v.nan))
            if not ok: return ok, be, why
            v = v.val
        ok, why = prove_eq(s, v, goal.val(*ks))
        return ok, "ring+z3", why
    if isinstance(goal, RealGoal):
        if goal.kind == "eq":
            ok, why = prove_eq(st, goal.a, goal.b)
            return ok, "ring", why
        if goal.kind == "nonzero":
            g = cmp("!=", goal.a, 0)
            if g is True: return True, "syntactic", ""
            if g is False: return False, "syntactic", "zero"
            if isinstance(goal.a, RT) and sign(st, goal.a) in (2, -2): return True, "signs", ""
            return prove_nonzero(st, goal.a)
    if isinstance(goal, Pos):
        if sign(st, goal.t) == 2: return True, "signs", ""
        return prove_bool(st, cmp(">", goal.t, 0))
    if isinstance(goal, NonNeg):
        if isinstance(goal.t, RT) and sign(st, goal.t) in (0, 1, 2): return True, "signs", ""
        n = normal(st, goal.t, split=False)
        for f in NONNEG:
            if f(st, n): return True, "rule", ""
        return prove_bool(st, cmp(">=", n, 0))
    return prove_bool(st, goal)

# ---- signs by structure
def size(t, lim=200):
    seen = set(); n = 0; stack = [t]
    while stack and n < lim:
        x = stack.pop()
        if isinstance(x, RT) and x.id not in seen: seen.add(x.id); n += 1; stack += [y for y in x.a if isinstance(y, RT)]
    return n
SIGNS = {}
def sign(st, t, memo=None):
    """2: positive, 1: non-negative, -2: negative, -1: non-positive, 0: zero, None: unknown"""
    if memo is None:
        key = tuple(c.get_id() for c in st.pc) + st.ghost.get("pos", ()); KEEPZ.extend(st.pc)
        memo = SIGNS.setdefault(key, {})
    if t.id in memo: return memo[t.id]
    if st.ghost.get("pos"):
        k, m = lead(t)
        for k2, m2 in st.ghost["pos"]:
            if m == m2: memo[t.id] = 2 * k * k2; return memo[t.id]
    memo[t.id] = None
    r = memo[t.id] = _sign(st, t, memo)
    return r
def flat(t, c=1):
    if t.op == "add": return flat(t.a[0], c) + flat(t.a[1], c)
    if t.op == "neg": return flat(t.a[0], -c)
    return [(c, t)]
def _sign(st, t, memo):
    op = t.op
    if op == "const": return 0 if t.a[0] == 0 else 2 if t.a[0] > 0 else -2
    if op == "neg":
        r = sign(st, t.a[0], memo); return None if r is None else -r
    if op in ("mul", "div"):
        a, b = sign(st, t.a[0], memo), sign(st, t.a[1], memo)
        if op == "mul" and t.a[0].id == t.a[1].id: return 2 if a in (2, -2) else 0 if a == 0 else 1
        if op == "mul" and (a is None or b is None) and size(t, 40) < 40:
            m = _mono(t)                  # even powers
            if m[1] and all(p % 2 == 0 and n % 2 == 0 for _, p, n in m[1]): return 1 if m[0] > 0 else -1
        if a is None or b is None or (op == "div" and b not in (2, -2)): return None
        if a == 0 or b == 0: return 0
        s = (1 if a > 0 else -1) * (1 if b > 0 else -1)
        return s * (2 if abs(a) == 2 and abs(b) == 2 else 1)
    if op == "app":
        f = t.a[0]
        if f in ("SQRT", "SQ"):
            x = t.a[1]; return 2 if isinstance(x, RT) and sign(st, x, memo) == 2 else 1
        if f == "CBRT": return sign(st, t.a[1], memo)
        if f == "PW":
            a = sign(st, t.a[1], memo)
            if a in (2, 1): return a
    if op == "add":
        ts = [(c, x, sign(st, x, memo)) for c, x in flat(t)]
        ss = [None if r is None else c * r for c, x, r in ts]
        if all(r is not None and r >= 0 for r in ss): return 2 if 2 in ss else 1 if any(ss) else 0
        if all(r is not None and r <= 0 for r in ss): return -2 if -2 in ss else -1
        # sqrt(A) + B with A >= B^2
        for k, (c, x, r) in enumerate(ts):
            if c == 1 and x.op == "app" and x.a[0] == "SQRT":
                rest = [(c2, y) for j, (c2, y, _) in enumerate(ts) if j != k]
                b = real(0)
                for c2, y in rest: b = b + (y if c2 == 1 else -y)
                lf = light(x.a[1] - b * b)
                if sign_light(st, lf, x.a[1], b, memo): return 1
    if size(t, 80) < 80:
        for g, v in ((cmp(">", t, 0), 2), (cmp("<", t, 0), -2), (cmp(">=", t, 0), 1)):
            if g is True or not isinstance(g, bool) and entails(st.pc, g, 1500): return v
    return None
def sign_light(st, lf, A, b, memo):
    """the terms of A without b*b are non-negative"""
    fl = flat(A); bb = light(b * b)
    rest = [(c, x) for c, x in fl if not (c == 1 and light(x) == bb)]
    return len(rest) < len(fl) and all((lambda r: r is not None and c * r >= 0)(sign(st, x, memo)) for c, x in rest)

NONNEG = []
NONZERO = []      # predicates: function(st, RT) -> True when known non-zero
def prove_nonzero(st, t):
    try: n = normal(st, t, split=False)
    except Exception: n = t
    if n.op == "neg": return prove_nonzero(st, n.a[0])
    if n.op == "mul":
        for x in n.a:
            r = prove_nonzero(st, x)
            if not r[0]: return r
        return r
    if n.op == "int": return prove_bool(st, cmp("!=", n.a[0], 0))
    for f in NONZERO:
        if f(st, n): return True, "rule", ""
    return prove_bool(st, cmp("!=", n, 0))

class Log:
    """obligation log"""
    def __init__(self, deadline=None):
        self.items = []; self.count = {}; self.deadline = deadline
    def check(self, func, kind, label, st, goal):
        t0 = time.time()
        if goal is True:
            return self.add(func, kind, label, True, "syntactic", "", 0.0)
        try:
            ok, be, why = prove_claim(st, goal)
            if not ok and infeasible(st): ok, be, why = True, "z3", "infeasible path"
        except ring.TooBig:
            ok, be, why = False, "ring", "normal form too big"
        self.add(func, kind, label, ok, be, why, time.time() - t0)
        return ok
    def add(self, func, kind, label, ok, backend, detail, t):
        k = "%s:%s:%s" % (func, kind, label)
        n = self.count[k] = self.count.get(k, 0) + 1
        self.items.append({"id": k + ("#%d" % n if n > 1 else ""), "function": func, "kind": kind,
                           "status": "proved" if ok else "failed", "backend": backend, "detail": "" if ok else detail, "time": round(t, 3)})
        return ok
