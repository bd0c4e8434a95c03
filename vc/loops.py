"""Loops: modified set, candidate invariants, Houdini, termination measure."""
import time, itertools, re
import z3
from terms import *
import prover as P
from prover import ArrFact, ArrClaim, RealGoal, FACTS, decide
import cexec
from cexec import D, Ptr, Ref, Unsupported, UNDEF, Undef, nanof, valof, Outcome

DRY = [0]
def leaves(v, path=()):
    if isinstance(v, dict):
        for k in sorted(v): yield from leaves(v[k], path + (k,))
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v): yield from leaves(x, path + (i,))
    else: yield path, v
def get(v, path):
    for p in path: v = v[p]
    return v
def put(v, path, x):
    if not path: return x
    if isinstance(v, dict): n = dict(v); n[path[0]] = put(v[path[0]], path[1:], x); return n
    n = list(v); n[path[0]] = put(v[path[0]], path[1:], x); return n
def samev(a, b):
    if a is b: return True
    if isint(a) and isint(b): return not isinstance(a - b, IP) and a - b == 0
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and samev(a.off, b.off)
    if isinstance(a, (RT, D)) or isinstance(b, (RT, D)): return a is b
    if isinstance(a, (dict, list, tuple)) and type(a) == type(b):
        la, lb = list(leaves(a)), list(leaves(b))
        return len(la) == len(lb) and all(p == q and samev(x, y) for (p, x), (q, y) in zip(la, lb))
    if isinstance(a, (Ref,)) and isinstance(b, Ref): return (a.cell, a.path) == (b.cell, b.path)
    if isinstance(a, cexec.Fun) and isinstance(b, cexec.Fun): return a.name == b.name
    return False

class Mods:
    def __init__(self): self.vars = {}; self.arrs = set(); self.local = set()   # vars: (cell, path) -> kind

def modset(ex, cond, inc, body, st):
    m = Mods()
    ex.quiet += 1; DRY[0] += 1
    try:
        for _ in range(12):
            h = st.copy(); h.touched = set(); h.touched_arr = set()
            havoc(ex, h, m, "d")
            exs, nxt, oth = ex.iteration(cond, inc, body, h.copy())
            grew = False
            for s in nxt + exs + [o.st for o in oth]:
                for c in h.touched:
                    if c not in st.cells:
                        if c not in m.local: m.local.add(c)
                        continue
                    old = h.cells.get(c, UNDEF); new = s.cells.get(c, UNDEF)
                    if samev(old, new): continue
                    base = st.cells[c]
                    lo, ln = dict(leaves(old)), dict(leaves(new))
                    if set(lo) != set(ln):
                        # aggregate replaced as a whole or initialised in the loop
                        if all(isinstance(x, Undef) for _, x in leaves(base)) or base == {}:
                            if (c, None) not in m.vars: m.vars[(c, None)] = "undef"; grew = True
                            continue
                        raise Unsupported("aggregate modified in a loop")
                    for p in ln:
                        if not samev(lo[p], ln[p]):
                            if (c, p) in m.vars and m.vars[(c, p)] == "undef": continue
                            b = get(base, p)
                            v = ln[p]
                            kind = "undef" if isinstance(b, Undef) else "int" if isint(b) else "real" if isinstance(b, (RT, D)) else "ptr" if isinstance(b, Ptr) else None
                            if kind is None: raise Unsupported("variable of kind %r modified in a loop" % (b,))
                            if kind == "ptr" and not (isinstance(v, Ptr) and v.obj == b.obj): raise Unsupported("pointer switches the object in a loop")
                            if kind == "real" and (isinstance(v, D)): kind = "nan"
                            if m.vars.get((c, p)) != kind and m.vars.get((c, p)) != "nan":
                                m.vars[(c, p)] = kind; grew = True
                for a in h.touched_arr:
                    if a in st.arrays and a not in m.arrs: m.arrs.add(a); grew = True
            st.touched |= {c for c in h.touched if c in st.cells}; st.touched_arr |= {a for a in h.touched_arr if a in st.arrays}
            if not grew: return m
        raise Unsupported("modified set of a loop does not stabilise")
    finally:
        ex.quiet -= 1; DRY[0] -= 1

def havoc(ex, st, m, tag, keepfacts=False):
    """replace everything modified by fresh values; returns the fresh variables"""
    fresh = {}
    for (c, p), kind in m.vars.items():
        nm = st.names.get(c, "v")
        old = st.cells[c]
        if kind == "undef": st.cells[c] = UNDEF if p in (None, ()) else put(old, p, UNDEF); continue
        ov = get(old, p)
        if kind == "int": v = fresh_int(nm)
        elif kind == "real": v = fresh_real(nm)
        elif kind == "nan": v = D(z3.Bool(fresh_name(nm + ".nan")), fresh_real(nm))
        else: v = Ptr(ov.obj, fresh_int(nm))
        fresh[(c, p)] = v
        st.cells[c] = put(old, p, v)
    for a in m.arrs:
        o = st.arrays[a].clone(); o.base = fresh_name(o.label); o.writes = ()
        st.arrays[a] = o
    for c in m.local: st.cells.pop(c, None)
    return fresh

def ints_in_scope(ex, st):
    """integer values of the current frame: name-independent list of (key, getter value)"""
    out = []
    for key, v in st.cells.items():
        if key[0] != st.frame: continue
        if isint(v): out.append(((key, ()), v))
        elif isinstance(v, dict):
            for p, x in leaves(v):
                if isint(x): out.append(((key, p), x))
    return out

def ival(st, k):
    c, p = k
    v = get(st.cells[c], p)
    return v.off if isinstance(v, Ptr) else v
def rval(st, k): return get(st.cells[k[0]], k[1])

def indexlike(v):
    """products and triangular numbers are positions in the arrays, not bounds of their regions"""
    return isinstance(v, IP) and any(len(m) > 1 or any(a in P.TRI_ARGS for a in m) for m in v.t)

class Cand:
    """kind: inteq / bool / realeq / arr; claim(state) -> goal in that state"""
    __slots__ = ("kind", "key", "claim", "target", "value", "deps", "info", "fresh")
    def __init__(self, kind, key, claim, target=None, value=None, deps=(), info=None):
        self.kind = kind; self.key = key; self.claim = claim; self.target = target; self.value = value; self.deps = deps; self.info = info
    def implies(self, o):
        """syntactically: bounds of the same pair of integers (info: (sense, variable, bound, offset, plain))"""
        a, b = self.info, o.info
        if self is o or self.kind != "bool" or o.kind != "bool" or not a or not b or a[:3] != b[:3]: return False
        return a[4] and (a[3] < b[3] or a[3] == b[3] and not b[4])
def tightest(cands):
    """without those implied by others"""
    bs = {}
    for c in cands:
        if c.kind == "bool" and c.info: bs.setdefault(c.info[:3], []).append(c)
    return [c for c in cands if not (c.kind == "bool" and c.info and any(d.implies(c) for d in bs[c.info[:3]]))]

def candidates(ex, st, m, guards):
    """candidate invariants which hold at the loop entry"""
    nm = lambda k: "%s%s" % (st.names.get(k[0], "?"), "".join("." + str(x) for x in k[1]))
    cands = []
    ivars = [k for k, kind in m.vars.items() if kind in ("int", "ptr")]
    init = {k: ival(st, k) for k in ivars}
    scope = [(k, v) for k, v in ints_in_scope(ex, st) if k not in m.vars]
    # distinct values of the unmodified integers, plus the guard bounds
    consts = []
    for k, v in scope + [(("g%d" % i, ()), g) for i, g in enumerate(guards)]:
        if not isinstance(v, IP): continue
        if any(not isinstance(v - w, IP) and v - w == 0 for _, w in consts): continue
        consts.append((k, v))
    constname = lambda k: nm(k) if isinstance(k[0], tuple) else k[0]
    # 1. equalities between integers
    order = {k: i for i, k in enumerate(ivars)}
    forms = []       # (name, deps, fn(state))
    for k in ivars:
        forms.append((nm(k), (k,), lambda s, k=k: ival(s, k)))
        forms.append(("-" + nm(k), (k,), lambda s, k=k: 0 - ival(s, k)))
        forms.append(("2" + nm(k), (k,), lambda s, k=k: 2 * ival(s, k)))
        forms.append(("TRI(%s)" % nm(k), (k,), lambda s, k=k: TRI(ival(s, k))))
        for k2 in ivars:
            if k2 != k: forms.append(("TRI(%s)+%s" % (nm(k), nm(k2)), (k, k2), lambda s, k=k, k2=k2: TRI(ival(s, k)) + ival(s, k2)))
        forms.append(("TRI(%s)-%s" % (nm(k), nm(k)), (k,), lambda s, k=k: TRI(ival(s, k)) - ival(s, k)))
        forms.append(("TRI(%s)+%s" % (nm(k), nm(k)), (k,), lambda s, k=k: TRI(ival(s, k)) + ival(s, k)))
        for ck, cv in consts:
            forms.append(("TRI(%s)+%s" % (nm(k), constname(ck)), (k,), lambda s, k=k, cv=cv: TRI(ival(s, k)) + cv))
            if len(cv.t) <= 2: forms.append(("%s*%s" % (nm(k), constname(ck)), (k,), lambda s, k=k, cv=cv: ival(s, k) * cv))
    for k in ivars:
        for fn, deps, f in forms:
            if k in deps: continue
            d = init[k] - f(st)
            d0 = d
            if not isinstance(d, IP) and abs(d) <= 4 or isinstance(d, IP) and len(d.t) <= 2:
                cands.append(Cand("inteq", "%s==%s+d" % (nm(k), fn), lambda s, k=k, f=f, d=d: cmp("==", ival(s, k), f(s) + d), target=k, value=lambda s, f=f, d=d: f(s) + d, deps=deps, info=(isinstance(d, IP), -len(init[k].t) if isinstance(init[k], IP) else 0)))
    cands.sort(key=lambda c: c.info)        # which one to substitute: constant offsets, complicated initial values
    # 2. inequalities
    for k in ivars:
        i0 = init[k]
        cands.append(Cand("bool", "%s>=init" % nm(k), lambda s, k=k, i0=i0: cmp(">=", ival(s, k), i0)))
        cands.append(Cand("bool", "%s<=init" % nm(k), lambda s, k=k, i0=i0: cmp("<=", ival(s, k), i0)))
        if isinstance(i0, IP): 
            for z in (0, 1): cands.append(Cand("bool", "%s>=%d" % (nm(k), z), lambda s, k=k, z=z: cmp(">=", ival(s, k), z)))
        for ck, cv in consts:
            for c in (-1, 0, 1, 2):
                cands.append(Cand("bool", "%s<=%s+%d" % (nm(k), constname(ck), c), lambda s, k=k, cv=cv, c=c: cmp("<=", ival(s, k), cv + c), info=("le", k, ck, c, True)))
                cands.append(Cand("bool", "%s>=%s+%d" % (nm(k), constname(ck), c), lambda s, k=k, cv=cv, c=c: cmp(">=", ival(s, k), cv + c), info=("ge", k, ck, -c, True)))
            for c in (0, 1):
                cands.append(Cand("bool", "%s<=%s+%d or init" % (nm(k), constname(ck), c), lambda s, k=k, cv=cv, c=c, i0=i0: or_(cmp("<=", ival(s, k), cv + c), cmp("==", ival(s, k), i0)), info=("le", k, ck, c, False)))
        for k2 in ivars:
            if k2 != k:
                for c in (0, 1):
                    cands.append(Cand("bool", "%s<=%s+%d" % (nm(k), nm(k2), c), lambda s, k=k, k2=k2, c=c: cmp("<=", ival(s, k), ival(s, k2) + c), info=("le", k, k2, c, True)))
    # 3. properties of the contract
    allint = [(nm(k), (lambda s, k=k: ival(s, k)), True) for k in ivars] + [(constname(k), (lambda s, v=v: v), False) for k, v in scope if isinstance(v, IP)]
    for pname, arity, fn in ex.current.props(ex):
        for combo in itertools.product(allint, repeat=arity):
            if arity and not any(x[2] for x in combo): continue
            for c in (0, 1, -1):
                cands.append(Cand("bool", "%s(%s+%d)" % (pname, ",".join(x[0] for x in combo), c), lambda s, fn=fn, combo=combo, c=c: fn(s, *[x[1](s) + c for x in combo])))
    # 4. real variables
    rvars = [k for k, kind in m.vars.items() if kind == "real"]
    fams = ex.current.reals(ex)
    for k in rvars:
        v0 = rval(st, k)
        for fname, arity, fn in fams:
            args = [(n, f, mod) for n, f, mod in allint] + [("0", lambda s: 0, False)]
            offs = (0, -1, 1, -2) if arity == 1 else (0, -1, -2)
            for combo in itertools.product(args, repeat=arity):
                if arity and not any(x[2] for x in combo) : continue
                for cs in itertools.product(offs, repeat=arity):
                    ts = [x[1](st) + c for x, c in zip(combo, cs)]
                    key = "%s==%s(%s)" % (nm(k), fname, ",".join("%s%+d" % (x[0], c) for x, c in zip(combo, cs)))
                    cands.append(Cand("realeq", key, lambda s, k=k, fn=fn, combo=combo, cs=cs: RealGoal("eq", rval(s, k), fn(*[x[1](s) + c for x, c in zip(combo, cs)])),
                                      target=k, value=lambda s, fn=fn, combo=combo, cs=cs: fn(*[x[1](s) + c for x, c in zip(combo, cs)])))
    # 5. arrays
    for a in sorted(m.arrs):
        # every element is a function of its position and of a counter
        for layout, fname, fn, *dom in ex.current.accum(ex).get(a, []):
            for n, f, mod in allint:
                if not mod or indexlike(f(st)): continue
                for c in (0, 1, -1):
                    v = Accum(lambda s, fn=fn, f=f, c=c: (lambda *k, u=f(s) + c: fn(u, *k)))
                    r = lambda s, dom=dom: dom[0] if dom else (lambda *k: True)
                    cands.append(Cand("arr", "%s[%s all]==%s(%s%+d)" % (st.arrays[a].label, layout.name, fname, n, c), lambda s, a=a, layout=layout, v=v, r=r: ArrClaim(a, 0, layout, r(s), v(s)), target=a, value=(layout, r, v), info="all"))
    for a in sorted(m.arrs):
        old = st.arrays[a]; old_state = st
        fam = ex.current.arrays(ex).get(a, ex.current.heap(ex) if str(a).startswith("heap") else [])
        ivn = [x for x in allint if x[2] or not indexlike(x[1](st))]
        for layout, fname, fn, *dom in fam:
            regs = []
            rel = [("%s-init" % n, (lambda s, f=f, i0=f(st): f(s) - i0), True) for n, f, mod in ivn if mod and isinstance(f(st), IP)]
            if layout.n == 1:
                for n, f, mod in ivn + rel:
                    if not mod: continue
                    for c in (0, 1, -1):
                        regs.append(("k<%s%+d" % (n, c), lambda s, f=f, c=c: (lambda k, u=f(s) + c: cmp("<", k, u))))
                        regs.append(("k>%s%+d" % (n, c), lambda s, f=f, c=c: (lambda k, u=f(s) + c: cmp(">", k, u))))
                        if mod: regs.append(("init>=k>%s%+d" % (n, c), lambda s, f=f, c=c, i0=f(st): (lambda k, u=f(s) + c: and_(cmp(">", k, u), cmp("<=", k, i0)))))
            else:
                for n, f, mod in ivn:
                    for c in (0, 1, -1):
                        if mod or c == 0:
                            regs.append(("i<%s%+d" % (n, c), lambda s, f=f, c=c: (lambda i, j, u=f(s) + c: cmp("<", i, u))))
                            if layout.name.startswith("tri"):
                                regs.append(("j<%s%+d" % (n, c), lambda s, f=f, c=c: (lambda i, j, u=f(s) + c: cmp("<", j, u))))
                for n, f, mod in ivn + ([("0", lambda s: 0, False)] if layout.name.startswith("tri") else []):
                    for n2, f2, mod2 in ivn:
                        if n2 == n or not (mod or mod2): continue
                        for c in (0, 1):
                          for c1 in (0,):
                            regs.append(("i<%s|i=%s,j<%s%+d" % (n, n, n2, c), lambda s, f=f, f2=f2, c=c: (lambda i, j, u=f(s), w=f2(s) + c: or_(cmp("<", i, u), and_(cmp("==", i, u), cmp("<", j, w))))))
                            if layout.name.startswith("tri"):
                                regs.append(("j<%s|j=%s,i<%s%+d" % (n, n, n2, c), lambda s, f=f, f2=f2, c=c: (lambda i, j, u=f(s), w=f2(s) + c: or_(cmp("<", j, u), and_(cmp("==", j, u), cmp("<", i, w))))))
                regs.append(("all", lambda s: (lambda i, j: True)))
            for rn, r in regs:
                if dom: r = lambda s, r=r: (lambda *k, q=r(s): and_(q(*k), dom[0](*k)))
                cands.append(Cand("arr", "%s[%s %s]==%s" % (old.label, layout.name, rn, fname),
                                  lambda s, a=a, layout=layout, r=r, fn=fn: ArrClaim(a, 0, layout, r(s), fn), target=a, value=(layout, r, fn), info=rn))
            # unchanged since the loop entry
            une = []
            if layout.n == 1:
                for n, f, mod in ivn + rel:
                    if mod:
                        for c in (0, 1): une.append(("k>=%s%+d" % (n, c), lambda s, f=f, c=c: (lambda k, u=f(s) + c: cmp(">=", k, u))))
                        une.append(("k<init %s" % n, lambda s, u=f(st): (lambda k: cmp("<", k, u))))
            else:
                for n, f, mod in ivn:
                    for c in (0, 1):
                        if mod:
                            une.append(("i>=%s%+d" % (n, c), lambda s, f=f, c=c: (lambda i, j, u=f(s) + c: cmp(">=", i, u))))
                            if layout.name.startswith("tri"): une.append(("j>=%s%+d" % (n, c), lambda s, f=f, c=c: (lambda i, j, u=f(s) + c: cmp(">=", j, u))))
                    if not mod:
                        une.append(("i!=%s" % n, lambda s, f=f: (lambda i, j, u=f(s): cmp("!=", i, u))))
                        if layout.name.startswith("tri"): une.append(("j!=%s" % n, lambda s, f=f: (lambda i, j, u=f(s): cmp("!=", j, u))))
                        une.append(("i<%s" % n, lambda s, f=f: (lambda i, j, u=f(s): cmp("<", i, u))))
                        une.append(("i>%s" % n, lambda s, f=f: (lambda i, j, u=f(s): cmp(">", i, u))))
                    for n2, f2, mod2 in ivn:
                        if n2 != n and mod2:
                            for c in (0,):
                                une.append(("i=%s,j>=%s%+d" % (n, n2, c), lambda s, f=f, f2=f2, c=c: (lambda i, j, u=f(s), w=f2(s) + c: and_(cmp("==", i, u), cmp(">=", j, w)))))
                                if not mod: une.append(("i=%s,j<init %s" % (n, n2), lambda s, f=f, w=f2(st): (lambda i, j, u=f(s): and_(cmp("==", i, u), cmp("<", j, w)))))
            def oldval(*k, old=old, layout=layout, st=st): return (P.aread_int if old.kind == "int" else P.aread)(st, old, layout.lin(*k))
            for rn, r in une:
                cands.append(Cand("arr", "%s[%s %s] unchanged" % (old.label, layout.name, rn),
                                  lambda s, a=a, layout=layout, r=r, fn=oldval: ArrClaim(a, 0, layout, r(s), fn), target=a, value=(layout, r, oldval), info=rn))
    return cands

class Accum:
    """contents of an array which depend on the state"""
    def __init__(self, f): self.f = f
    def __call__(self, s): return self.f(s)

def dedupe(cands):
    seen = set(); out = []
    for c in cands:
        if c.key not in seen: seen.add(c.key); out.append(c)
    return out

def without_indices(cands, nm):
    """drop the regions bounded by variables which are array positions"""
    idx = {nm(c.target) for c in cands if c.kind == "inteq" and "TRI(" in c.key}
    idx -= {x for c in cands if c.kind == "inteq" for x in re.findall(r"TRI\(([^)]*)\)", c.key)}
    if not idx: return cands
    return [c for c in cands if not (c.kind == "arr" and idx & set(re.split(r"[^A-Za-z0-9_.]+", c.info)))]

def covered(st, c, ok):
    """the claim follows from one that is already established"""
    if c.kind == "bool": return any(d.implies(c) for d in ok)
    if c.kind != "arr": return False
    layout, r, fn = c.value
    for d in ok:
        if d.kind == "arr" and d.target == c.target and d.value[0] is layout and d.value[2] is fn:
            ks = tuple(fresh_int("k") for _ in range(layout.n))
            a, b = r(st)(*ks), d.value[1](st)(*ks)
            if b is True or a is False: return True
            if b is False or a is True: continue
            s = st.copy()
            for q in layout.dom(*ks) + [a]:
                if q is not True: s.assume(q)
            if P.entails(s.pc, b, 300): return True
    return False

def check(ex, st, cands, stop=None):
    """the candidates which hold in the state"""
    ok = []
    for c in sorted(cands, key=lambda c: ({"inteq": 0, "bool": 1, "realeq": 2, "arr": 3}[c.kind], c.info[3] if c.kind == "bool" and c.info else 0)):
        if ex.deadline and time.time() > ex.deadline: raise Unsupported("time limit")
        if stop and c.kind in ("realeq", "arr") and stop(ok): ok.append(c); continue
        t0 = time.time()
        h = covered(st, c, ok) or holds(st, c)
        if TRACE[0] and time.time() - t0 > 1: print("     slow %.1f %s %s" % (time.time() - t0, c.key, h))
        if h: ok.append(c)
        elif TRACE[0] and TRACE[0] > 1: print("     drop", c.key)
    keys = {c.key for c in ok}
    return [c for c in cands if c.key in keys]

def holds(st, c):
    try: g = c.claim(st)
    except (Unsupported, ZeroDivisionError): return False
    if g is True: return True
    if g is False: return False
    if isinstance(g, RealGoal) and g.a is g.b: return True
    if isinstance(g, z3.BoolRef): return decide(st, g) is True
    try:
        r = P.prove_claim(st, g)
        if TRACE[0] and TRACE[0] > 1 and not r[0]: print("       why:", str(r[2])[:400])
        return r[0]
    except (P.Split, ZeroDivisionError): return False

def assume(ex, st, m, cands):
    """havocked state with the candidates assumed"""
    h = st.copy(); h.touched = set(); h.touched_arr = set()
    fresh = havoc(ex, h, m, "h")
    done = set(); used = set()
    # integer equalities by substitution, in dependency order
    eqs = [c for c in cands if c.kind == "inteq"]
    for c in eqs:
        if c.target in done or c.target in used: continue
        if any(d in done for d in c.deps): continue
        v = c.value(h)
        k = c.target
        old = rval(h, k)
        h.cells[k[0]] = put(h.cells[k[0]], k[1], Ptr(old.obj, v) if isinstance(old, Ptr) else v)
        done.add(k); used |= set(c.deps)
    for c in eqs:
        g = c.claim(h)
        if g is not True: h.assume(g)
    for c in tightest(cands):
        if c.kind == "bool":
            g = c.claim(h)
            if g is not True: h.assume(g)
    rd = set()
    for c in cands:
        if c.kind == "realeq" and c.target not in rd:
            rd.add(c.target)
            h.cells[c.target[0]] = put(h.cells[c.target[0]], c.target[1], real(c.value(h)))
    for c in cands:
        if c.kind == "arr":
            layout, r, fn = c.value
            if isinstance(fn, Accum): fn = fn(h)
            FACTS.setdefault(h.arrays[c.target].base, []).append(ArrFact(layout, r(h), fn, c.key))
    return h

TRACE = [False]
def cut(ex, node, cond, inc, body, st):
    m = modset(ex, cond, inc, body, st)
    if DRY[0]:
        ex.quiet += 1
        try:
            h = st.copy(); h.touched = st.touched; h.touched_arr = st.touched_arr
            havoc(ex, h, m, "n")
            exs, nxt, oth = ex.iteration(cond, inc, body, h)
            return [Outcome("norm", s) for s in exs] + oth
        finally: ex.quiet -= 1
    r = unroll(ex, cond, inc, body, st)
    if r is not None: return r
    guards = guard_bounds(ex, cond, st, m)
    memo_key = (node.get("id"), ex.func, st.ghost.get("trail", ()))
    cands = candidates(ex, st, m, guards)
    surv = ex.loopmemo.get(memo_key)
    if surv is not None: cands = [c for c in cands if c.key in surv]
    n0 = len(cands)
    t0 = time.time(); seen = 0
    if surv is None:
        import trace
        cands = dedupe(cands)
        c0 = cands
        cands, seen = trace.filter_candidates(ex, node, st, cands)
        cands = without_indices(cands, lambda k: "%s%s" % (st.names.get(k[0], "?"), "".join("." + str(x) for x in k[1])))
        if TRACE[0] and TRACE[0] > 1:
            for c in c0:
                if c not in cands and "unch" not in c.key: print("     trace-dropped", c.key)
        if TRACE[0]: print("  loop", node.get("id")[-5:], "cands", n0, "traces", seen, "->", len(cands), "%.1fs" % (time.time() - t0), flush=True)
    ex.quiet += 1
    try:
        cands = check(ex, st, cands)
        if TRACE[0]: print("  loop", node.get("id")[-5:], "cands", n0, "->", len(cands), "%.1fs" % (time.time() - t0), flush=True)
        for rnd in range(40):
            h = assume(ex, st, m, cands)
            exs, nxt, oth = ex.iteration(cond, inc, body, h)
            left = cands
            nints = sum(c.kind in ("inteq", "bool") for c in cands)
            # integers first: cheap, and they decide the rest
            stop = (lambda ok: sum(c.kind in ("inteq", "bool") for c in ok) < nints) if rnd == 0 else None
            for s in nxt:
                if P.infeasible(s): continue
                left = check(ex, s, left, stop)
            bad = {c.key for c in cands} - {c.key for c in left}
            if not bad: break
            cands = [c for c in cands if c.key not in bad]
            if TRACE[0]: print("     round", rnd, "left", len(cands), "%.1fs" % (time.time() - t0), flush=True)
        else:
            raise Unsupported("Houdini does not converge")
    finally: ex.quiet -= 1
    ex.loopmemo[memo_key] = {c.key for c in cands}
    if TRACE[0]:
        for c in cands: print("     INV", c.key)
    # final pass with the obligations of the body
    h = assume(ex, st, m, cands)
    hh = h.copy()
    exs, nxt, oth = ex.iteration(cond, inc, body, h)
    if not ex.quiet:
        t = time.time() - t0
        for c in cands:
            ex.log.add(ex.func, "inv-init", c.key, True, "z3" if c.kind in ("inteq", "bool") else "ring+z3", "", 0)
            ex.log.add(ex.func, "inv-pres", c.key, True, "z3" if c.kind in ("inteq", "bool") else "ring+z3", "", t / max(1, len(cands)))
        term(ex, node, cond, hh, nxt)
    for s in exs: exit_equalities(ex, s, m, guards)
    return [Outcome("norm", s) for s in exs] + oth

def unroll(ex, cond, inc, body, st, most=8):
    """execution of a loop of a known small number of iterations, or None"""
    if cond is None or not cexec.pure(cond): return None
    def known(s):
        ex.quiet += 1
        try: vs = ex.ev(cond, s.copy())
        except Unsupported: return None
        finally: ex.quiet -= 1
        if len(vs) != 1: return None
        t = ex.truth(vs[0][0], vs[0][1])
        return t if isinstance(t, bool) else None
    if known(st) is not True: return None
    out = []; cur = [st]
    for quiet in (1, 0):
        out = []; cur = [st.copy()]
        ex.quiet += quiet
        try:
            for n in range(most + 1):
                left = []
                for s in cur:
                    t = known(s)
                    if t is None: return None
                    if n == most and t: return None
                    exs, nxt, oth = ex.iteration(cond, inc, body, s)
                    out += [Outcome("norm", e) for e in exs if not P.infeasible(e)] + oth
                    left += [e for e in nxt if not P.infeasible(e)]
                cur = left
                if not cur: break
                if len(cur) > 16: return None
        finally: ex.quiet -= quiet
    return out

def bad_int(bad, cands):
    kinds = {c.key: c.kind for c in cands}
    return any(kinds[b] in ("inteq", "bool") for b in bad)

def guard_exprs(cond):
    """comparison leaves of the guard"""
    out = []
    def walk(n):
        k = n.get("kind")
        if k in ("ParenExpr", "ImplicitCastExpr") and n.get("inner"): return walk(n["inner"][0])
        if k == "BinaryOperator" and n["opcode"] == "&&":
            for c in n["inner"]: walk(c)
        elif k == "BinaryOperator" and n["opcode"] in ("<", "<=", ">", ">=", "!="): out.append(n)
    if cond is not None: walk(cond)
    return out

def guard_bounds(ex, cond, st, m):
    out = []
    for g in guard_exprs(cond):
        if not cexec.pure(g): continue
        for side in g["inner"]:
            ex.quiet += 1
            try:
                h = st.copy(); h.touched = set(); h.touched_arr = set()
                fr = havoc(ex, h, m, "g")
                (s, v), = ex.ev(side, h)
                if isint(v) and isinstance(v, IP):
                    ats = {a for mm in v.t for a in mm}
                    mod = {a for f in fr.values() if isinstance(f, IP) for mm in f.t for a in mm}
                    if not ats & mod: out.append(v)
            except (Unsupported, ValueError): pass
            finally: ex.quiet -= 1
    return out

def term(ex, node, cond, head, nxt):
    """a measure bounded from below under the guard decreases in every iteration"""
    measures = []
    for g in guard_exprs(cond):
        def mk_(s, g=g):
            ex.quiet += 1
            try:
                s = s.copy()
                l, r = g["inner"]
                (s1, a), = ex.ev(l, s); (s2, b), = ex.ev(r, s1)
                if not isint(a) or not isint(b): return None
                return b - a if g["opcode"] in ("<", "<=", "!=") else a - b
            except (Unsupported, ValueError): return None
            finally: ex.quiet -= 1
        measures.append((g, mk_))
    # fall back: differences of loop integers and constants
    ok = False; why = "no measure found"; t0 = time.time()
    for g, f in measures:
        m0 = f(head)
        if m0 is None: continue
        good = True
        for s in nxt:
            if P.infeasible(s): continue
            m1 = f(s)
            if m1 is None: good = False; break
            if P.prove_bool(s, and_(cmp("<", m1, m0), cmp(">=", m0, 0)))[0] is not True: good = False; why = "measure %r -> %r" % (m0, m1); break
        if good: ok = True; break
    ex.log.add(ex.func, "term", "loop terminates", ok, "z3", why, time.time() - t0)

def exit_equalities(ex, s, m, guards):
    """at the exit: integers that meet a bound exactly"""
    for (c, p), kind in m.vars.items():
        if kind != "int": continue
        v = get(s.cells.get(c, 0), p) if c in s.cells else None
        if not isinstance(v, IP) or isinstance(P.isubst(v, s.subst), int): continue
        others = list(guards) + [x for k, x in ints_in_scope(ex, s) if k not in m.vars and isinstance(x, IP)]
        others += [get(s.cells[c2], p2) for (c2, p2), k2 in m.vars.items() if k2 == "int" and (c2, p2) != (c, p) and c2 in s.cells]
        seen = set()
        for e in others:
            if not isint(e): continue
            d = P.isubst(v - e, s.subst)
            if not isinstance(d, IP): break
            k = d.key()
            if k in seen: continue
            seen.add(k)
            hit = False
            for off in (1, 0):
                if decide(s, cmp("==", v, e + off)) is True:
                    P.eq_subst(s, v - e - off); hit = True; break
            if hit: break
