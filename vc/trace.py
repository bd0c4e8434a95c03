"""Concrete runs of the function under verification: they only discard candidate invariants that are false
on some execution, before the proof rules are tried on the rest.  Nothing is concluded from a concrete run."""
import math, random, time
import z3
import terms as T
from terms import *
import prover as P

class Asg:
    """values of the symbols"""
    def __init__(self, seed):
        self.ints = {}; self.reals = {}; self.arr = {}; self.bools = {}; self.rng = random.Random(seed); self.memo = {}; self.seed = seed; self.steps = 0
    def fork(self):
        a = Asg(self.seed); a.ints = dict(self.ints); a.reals = dict(self.reals); a.arr = dict(self.arr); a.bools = dict(self.bools); a.rng = self.rng
        return a
class Unknown(Exception): pass
class Done(Exception): pass

def evi(x, g):
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if isinstance(x, IP):
        r = 0
        for m, c in x.t.items():
            p = c
            for a in m: p *= evatom(a, g)
            r += p
        return r
    raise Unknown(repr(x))
def evatom(a, g):
    if a in g.ints: return g.ints[a]
    if a in TRI_ARGS:
        v = evi(TRI_ARGS[a], g); return v * (v + 1) // 2
    e, key = ATOMS[a]
    if isinstance(key, tuple) and key[0] == "z":
        v = evz(e, g); g.ints[a] = v; return v
    if isinstance(key, str) and key in g.ints: return g.ints[key]
    raise Unknown(str(key))

def evr(x, g):
    if isinstance(x, (int, float)): return float(x) if not isinstance(x, bool) else int(x)
    if isinstance(x, Fraction): return float(x)
    if isinstance(x, IP): return float(evi(x, g))
    v = g.memo.get(x.id)
    if v is None:
        v = g.memo[x.id] = _evr(x, g)
    return v
def _evr(x, g):
    o, a = x.op, x.a
    if o == "const":
        if a[0] is None: raise Unknown("infinite")
        return float(a[0])
    if o == "var":
        if a[0] not in g.reals: raise Unknown(a[0])
        return g.reals[a[0]]
    if o == "int": return float(evi(a[0], g))
    if o == "add": return evr(a[0], g) + evr(a[1], g)
    if o == "mul": return evr(a[0], g) * evr(a[1], g)
    if o == "neg": return -evr(a[0], g)
    if o == "div":
        d = evr(a[1], g)
        if d == 0: return math.nan
        return evr(a[0], g) / d
    if o == "ite": return evr(a[1], g) if evb(a[0], g) else evr(a[2], g)
    if o == "sel": return evsel(a[0], evi(a[1], g), g)
    f, args = a[0], a[1:]
    if f in NUM: return NUM[f](*[evr(v, g) for v in args])
    if f in P.SPECS:
        args = tuple(v if isinstance(v, RT) else evi(v, g) for v in args)
        y = app(f, *args)
        if y is not x and y.id in g.memo: return g.memo[y.id]
        if f == "PW" and args[1] < 0:
            b = evr(args[0], g); return b ** args[1] if b else math.nan
        u = P.SPECS[f].unfold(None, *args)
        if u is None: return math.nan
        v = evr(u[0], g); g.memo[y.id] = v; return v
    raise Unknown(f)
def sq(x): return math.sqrt(x) if x >= 0 else math.nan
NUM = {"SIN": math.sin, "COS": math.cos, "TAN": math.tan, "SQRT": sq, "SQ": sq, "PI": lambda: math.pi, "ATAN2": math.atan2,
       "ASIN": lambda x: math.asin(x) if -1 <= x <= 1 else math.nan, "ACOS": lambda x: math.acos(x) if -1 <= x <= 1 else math.nan,
       "CBRT": lambda x: math.copysign(abs(x) ** (1 / 3), x), "FMOD": lambda x, y: math.fmod(x, y) if y else math.nan}

def evsel(base, i, g):
    a = g.arr.get(base)
    if a is None:
        for f in P.FACTS.get(base, ()):
            for k in f.layout.invert(EMPTY, i):
                try: ok = all(evb(c, g) for c in f.layout.dom(*k) + [f.region(*k)])
                except Unknown: ok = False
                if ok: return evr(f.val(*k), g)
        return random.Random("%s/%d/%d" % (base, i, g.seed)).uniform(-1, 1) if base not in SORTED else i + random.Random("%s/%d/%d" % (base, i, g.seed)).uniform(0, 0.9)
    arr, own = a
    if arr.base == base and not arr.writes: return evsel_free(base, i, own)
    for w, v in reversed(arr.writes):
        if evi(w, own) == i: return evr(v if isinstance(v, (RT, int, float)) else getattr(v, "val", v), own)
    return evsel_free(arr.base, i, own)
def evsel_free(base, i, g):
    sv = g.arr.pop(base, None)
    try: return evsel(base, i, g)
    finally:
        if sv is not None: g.arr[base] = sv
SORTED = set()
EMPTY = P.State()

def evb(c, g):
    if isinstance(c, bool): return c
    return bool(evz(c, g))
K = z3
def evz(e, g):
    ip = ZIP.get(e.get_id())
    if ip is not None: return evi(ip[1], g)
    i = e.get_id()
    if i in P.SELS if False else i in SELS: return evsel(SELS[i][1], evi(SELS[i][2], g), g)
    if i in APPS: return evr(APPS[i][1], g)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return float(e.as_fraction())
    k = e.decl().kind(); ch = e.children()
    if k == z3.Z3_OP_AND: return all(evz(c, g) for c in ch)
    if k == z3.Z3_OP_OR: return any(evz(c, g) for c in ch)
    if k == z3.Z3_OP_NOT: return not evz(ch[0], g)
    if k == z3.Z3_OP_IMPLIES: return (not evz(ch[0], g)) or evz(ch[1], g)
    if k == z3.Z3_OP_ITE: return evz(ch[1], g) if evz(ch[0], g) else evz(ch[2], g)
    if k == z3.Z3_OP_UNINTERPRETED:
        if not ch:
            n = e.decl().name()
            if e.sort() == z3.RealSort():
                if n in g.reals: return g.reals[n]
            elif e.sort() == z3.BoolSort():
                if n in g.bools: return g.bools[n]
                raise Unknown(n)
            elif n in ATOM_OF and ATOM_OF[n] in g.ints: return g.ints[ATOM_OF[n]]
            raise Unknown(n)
        if e.decl().name() == "TRI":
            v = evz(ch[0], g); return v * (v + 1) // 2
        raise Unknown(str(e.decl()))
    v = [evz(c, g) for c in ch]
    if k == z3.Z3_OP_EQ: return close(v[0], v[1]) if isinstance(v[0], float) or isinstance(v[1], float) else v[0] == v[1]
    if k == z3.Z3_OP_DISTINCT: return v[0] != v[1]
    if k == z3.Z3_OP_LE: return v[0] <= v[1]
    if k == z3.Z3_OP_LT: return v[0] < v[1]
    if k == z3.Z3_OP_GE: return v[0] >= v[1]
    if k == z3.Z3_OP_GT: return v[0] > v[1]
    if k == z3.Z3_OP_ADD: return sum(v)
    if k == z3.Z3_OP_SUB: return v[0] - sum(v[1:])
    if k == z3.Z3_OP_UMINUS: return -v[0]
    if k == z3.Z3_OP_MUL:
        p = 1
        for x in v: p *= x
        return p
    if k == z3.Z3_OP_DIV: return v[0] / v[1] if v[1] else math.nan
    if k == z3.Z3_OP_IDIV: return v[0] // v[1] if v[1] > 0 else -(v[0] // -v[1])
    if k == z3.Z3_OP_MOD: return v[0] % abs(v[1])
    if k == z3.Z3_OP_TO_REAL: return float(v[0])
    if k == z3.Z3_OP_TO_INT: return math.floor(v[0])
    raise Unknown(str(e.decl()))

def close(a, b):
    if a == b: return True
    if a != a or b != b: return False
    return abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-300

# the numeric mode of terms.cmp
def ncmp(op, a, b):
    g = T.ASG[0]
    if isinstance(a, RT) or isinstance(b, RT) or isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)): x, y = evr(a, g), evr(b, g)
    else: x, y = evi(a, g), evi(b, g)
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
T.NCMP[0] = ncmp

# ---------------------------------------------------------------- concrete runs
class Run:
    def __init__(self): self.heads = {}       # node id -> [(entry state, [head states], asg)]

def record(ex, contract, n=5):
    """run the contracted function concretely a few times"""
    runs = []
    import cexec
    for k in range(n):
        if T.ASG[0] is not None: raise Exception("nested")
        st = P.State(); st.frame = ()
        saved = dict(ex.__dict__)
        try:
            args = contract.build(ex, st)
            e = contract.env(args); e.st = st; e.st0 = st; e.ex = ex; e.case = getattr(contract, "case", None)
            import contract as C
            for _, p in contract.pre(e):
                if isinstance(p, P.ArrClaim): C.assume_goal(st, p)
            g = None
            for att in range(12):
                g = sample(st, e, contract, k * 100 + att)
                if g is not None: break
            if g is None: continue
            run = Run()
            ex.quiet += 1; ex.trace = run; ex.func = "trace"; ex.current = contract
            T.ASG[0] = g; g.t0 = time.time()
            s2 = P.State(); s2.frame = ()
            s2.cells = {c: conc(v, g) for c, v in st.cells.items()}; s2.names = dict(st.names); s2.ghost = dict(st.ghost)
            for o, a in st.arrays.items():
                b = a.clone(); b.size = evi(a.size, g) if a.size is not None else None; b.writes = tuple((evi(i, g), conc(v, g)) for i, v in a.writes)
                s2.arrays[o] = b
            try: ex.run(contract.name, [conc(a, g) for a in args], s2)
            except Done: pass
            runs.append(run)
        except (Unknown, cexec.Unsupported, ZeroDivisionError, KeyError, TypeError, ValueError, OverflowError, AttributeError, IndexError) as err:
            if DEBUG[0]: print("  trace failed:", type(err).__name__, err)
            if DEBUG[0] and not isinstance(err, (Unknown, cexec.Unsupported)):
                import traceback; traceback.print_exc()
        finally:
            T.ASG[0] = None
            ex.__dict__.update(saved); ex.trace = None
    return runs
DEBUG = [False]

def conc(v, g):
    import cexec
    if isinstance(v, IP): return evi(v, g)
    if isinstance(v, cexec.D): return cexec.NANV if evb(v.nan, g) else conc(v.val, g)
    if isinstance(v, cexec.Ptr): return cexec.Ptr(v.obj, conc(v.off, g))
    if isinstance(v, cexec.MaybeNull): return cexec.NULL if evb(v.cond, g) else conc(v.ptr, g)
    if isinstance(v, cexec.IteV): return conc(v.a if evb(v.c, g) else v.b, g)
    if isinstance(v, dict): return {k: conc(x, g) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [conc(x, g) for x in v]
    if isinstance(v, z3.BoolRef): return evb(v, g)
    return v

def sample(st, e, contract, seed):
    """an assignment that satisfies the precondition, with small integers"""
    rng = random.Random(seed)
    g = Asg(seed)
    pre = [p for _, p in contract.pre(e) if isinstance(p, z3.BoolRef)]
    fs = list(st.pc) + pre
    s = z3.Solver(); s.set("timeout", 2000); s.set("random_seed", seed % 1000)
    ints = [p for p in fs if not P.isreal(p)]
    for f in ints + P.axioms(ints): s.add(f)
    ats = [a for a in range(len(ATOMS)) if isinstance(ATOMS[a][1], str) and "!" not in ATOMS[a][1]]
    for f in ints:
        ats += [a for a in P.atoms_of_cond(f) if a not in ats and isinstance(ATOMS[a][1], str)]
    if s.check() != z3.sat: return None
    hint = contract.sample(rng)
    for a in ats:
        for v in ([hint[ATOMS[a][1]]] if ATOMS[a][1] in hint else []) + [rng.choice((5, 4, 6, 3)), rng.choice((2, 3, 1, 0)), rng.choice((7, 8, 10, -1))]:
            s.push(); s.add(ATOMS[a][0] == v)
            if s.check() == z3.sat: break
            s.pop()
    s.check(); m = s.model()
    for a in ats:
        try: g.ints[a] = m.eval(ATOMS[a][0], True).as_long()
        except Exception: pass
    class L(dict):
        def __missing__(self, k):
            v = self[k] = random.Random("%s/%d" % (k, seed)).uniform(0.2, 0.9); return v
        def __contains__(self, k): return True
    g.reals = L(); g.reals.update({k: float(v) for k, v in hint.items()})
    class B(dict):
        def __missing__(self, k): v = self[k] = False if "nan" in k or "fail" in k else random.Random("%s/%d" % (k, seed)).random() < 0.5; return v
        def __contains__(self, k): return True
    g.bools = B(); g.bools.update({k: bool(v) for k, v in hint.items()})
    try:
        for f in fs:
            if not evb(f, g): return None
    except Unknown: pass
    return g

def loop(ex, node, cond, inc, body, st):
    """concrete execution of a loop with snapshots of its head"""
    from cexec import Outcome
    import cexec
    heads = []; g = T.ASG[0]
    lst = ex.trace.heads.setdefault((st.frame, node["id"]), [])
    if len(lst) < 60: lst.append((st.copy(), heads, g))
    outs = []; cur = [st]; n = 0
    while cur:
        nxt = []
        for s in cur:
            if len(heads) < 40: heads.append(s.copy())
            e, nx, oth = ex.iteration(cond, inc, body, s)
            outs += [Outcome("norm", x) for x in e] + oth
            nxt += nx
        cur = nxt; n += 1
        if n > 3000 or time.time() - g.t0 > 20: raise Done()
    return outs

def unify(st, cst, g0):
    """assignment of the symbols of st that makes it the concrete state cst, or None"""
    import loops, cexec
    g = g0.fork()
    g.reals = dict(g0.reals)
    base = g0.reals
    class L(dict):
        def __missing__(self, k): return base[k]
        def __contains__(self, k): return dict.__contains__(self, k) or "!" not in k
    g.reals = L()
    pend = []
    for key, v in st.cells.items():
        if key not in cst.cells: continue
        lv = list(loops.leaves(v)); cv = cst.cells[key]
        for p, x in lv:
            try: y = loops.get(cv, p)
            except Exception: continue
            if isinstance(x, cexec.Ptr) and isinstance(y, cexec.Ptr): x, y = x.off, y.off
            if isinstance(x, IP) and isinstance(y, int):
                pend.append((x, y))
            elif isinstance(x, int) and isinstance(y, int):
                if x != y: return None
            elif isinstance(x, RT) and x.op == "var" and isinstance(y, RT):
                if "!" in x.a[0]: 
                    try: g.reals[x.a[0]] = evr(y, g0)
                    except Unknown: pass
    for _ in range(4):
        rest = []
        for x, y in pend:
            free = {a for m in x.t for a in m if a not in g.ints and a not in TRI_ARGS}
            if not free:
                try:
                    if evi(x, g) != y: return None
                except Unknown: pass
                continue
            if len(free) == 1:
                (a,) = free
                lin = x.t.get((a,), 0)
                if lin and sum(a in m for m in x.t) == 1 and not any(b in TRI_ARGS for m in x.t for b in m):
                    try:
                        c = evi(x - IP({(a,): lin}), g)
                        if (y - c) % lin: return None
                        g.ints[a] = (y - c) // lin; continue
                    except Unknown: pass
            rest.append((x, y))
        pend = rest
    for o, a in st.arrays.items():
        if o in cst.arrays: g.arr[a.base] = (cst.arrays[o], g0)
    for o, a in cst.arrays.items():
        pass
    return g

def holds(claim, s, g, g0):
    """claim(s) on the concrete state s (its symbols: g0), other symbols: g. True unless shown to be false"""
    import contract as C
    for o, a in s.arrays.items(): 
        if a.base not in g.arr: pass
    T.ASG[0] = g; g.memo = {}
    try:
        goal = claim(s)
        return value(goal, s, g, g0)
    except (Unknown, ZeroDivisionError, OverflowError):
        return True
    except Exception:
        return True
    finally: T.ASG[0] = None

def value(goal, s, g, g0):
    if isinstance(goal, bool): return goal
    if isinstance(goal, z3.BoolRef): return evb(goal, g)
    if isinstance(goal, P.RealGoal):
        x, y = evr(goal.a, g), evr(goal.b, g)
        if x != x and y != y: return True
        return close(x, y)
    if isinstance(goal, P.ArrClaim):
        a = s.arrays[goal.obj]; size = a.size if isinstance(a.size, int) else 60
        rng = range(0, 14)
        import itertools
        for k in itertools.product(rng, repeat=goal.layout.n):
            if not all(evb(c, g) for c in goal.layout.dom(*k)): continue
            if not evb(goal.region(*k), g): continue
            i = evi(goal.off + goal.layout.lin(*k), g)
            if not 0 <= i < size:
                continue
            # the concrete array holds terms over the symbols of the run
            x = evconc(a, i, g0); y = evr(goal.val(*k), g)
            if x is None: continue
            if not close(x, y) and not (x != x and y != y): return False
        return True
    return True
def evconc(a, i, g0):
    for w, v in reversed(a.writes):
        if w == i:
            v = getattr(v, "val", v)
            return evr(v, g0)
    return evsel_free(a.base, i, g0)

def filter_candidates(ex, node, st, cands):
    runs = getattr(ex, "runs", None)
    if not runs: return cands, 0
    seen = 0; alive = list(cands)
    for r in runs:
        for entry, heads, g0 in r.heads.get((st.frame, node["id"]), ()):
            if len(heads) < 1: continue
            T.ASG[0] = g0
            try: g = unify(st, entry, g0)
            except (Unknown, KeyError): g = None
            finally: T.ASG[0] = None
            if g is None: continue
            seen += 1
            hs = heads if len(heads) <= 6 else heads[:3] + heads[len(heads) // 2:len(heads) // 2 + 1] + heads[-2:]
            for h in hs:
                alive = [c for c in alive if holds(c.claim, h, g, g0)]
            if seen > 12: return alive, seen
    return alive, seen
