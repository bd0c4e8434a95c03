"""Symbolic executor of C functions (clang AST of the real sources) and its verification conditions.

 * integers are mathematical; every signed operation carries an overflow obligation and unsigned operations
   wrap explicitly; doubles are real numbers, optionally with a NaN flag (D); infinities are not modelled
 * a caller is executed against the callee's contract when there is one; static helpers without one are inlined
 * loops are cut by invariants: candidates generated from the contract's spec families and from the shapes of
   the loop variables are filtered to an inductive subset (Houdini); only what is proved inductive is used
"""
import re, time, math
import z3
from terms import *
import terms as T
from cfront import ty
import prover as P
from prover import State

class Unsupported(Exception): pass
class VCError(Exception): pass

# ------------------------------------------------------------------ values
class D:
    """double with NaN flag"""
    __slots__ = ("nan", "val")
    def __init__(self, nan, val): self.nan = nan; self.val = val
    def __repr__(self): return "D(%s,%s)" % (self.nan, self.val)

def mkd(nan, val): return val if nan is False else D(nan, val)
def nanof(x): return x.nan if isinstance(x, D) else False
def valof(x): return x.val if isinstance(x, D) else x
NANV = D(True, real(0))

class Ptr:
    """pointer to element off of the array object obj"""
    __slots__ = ("obj", "off")
    def __init__(self, obj, off=0): self.obj = obj; self.off = off
    def __repr__(self): return "Ptr(%s,%r)" % (self.obj, self.off)
class Ref:
    """pointer to a cell (variable or struct object), path inside of it"""
    __slots__ = ("cell", "path")
    def __init__(self, cell, path=()): self.cell = cell; self.path = path
    def __repr__(self): return "Ref(%s,%s)" % (self.cell, self.path)
class Null:
    def __repr__(self): return "NULL"
NULL = Null()
class Fun:
    def __init__(self, name): self.name = name
    def __repr__(self): return "Fun(%s)" % self.name
class MaybeNull:
    """pointer which is NULL iff cond"""
    def __init__(self, cond, ptr): self.cond = cond; self.ptr = ptr
class Opaque:
    def __init__(self, what): self.what = what
class Undef:
    def __repr__(self): return "UNDEF"
UNDEF = Undef()
class IteV:
    """conditional non-numeric value"""
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b

# ------------------------------------------------------------------ types
INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "short": (16, True),
        "unsigned short": (16, False), "char": (8, True), "unsigned char": (8, False), "signed char": (8, True), "_Bool": (1, False),
        "long long": (64, True), "unsigned long long": (64, False), "bool": (1, False)}
def strip(t):
    t = re.sub(r"\b(const|restrict|volatile|__restrict|static|enum)\b", "", t)
    return re.sub(r"\s+", " ", t).strip()

class Types:
    def __init__(self, tu): self.tu = tu; self.cache = {}
    def of(self, node):
        t = node.get("type", {})
        return self.resolve(t.get("desugaredQualType") or t.get("qualType", ""))
    def resolve(self, t):
        if t in self.cache: return self.cache[t]
        s = strip(t)
        for _ in range(10):
            if s in INTS or s in ("double", "float", "void"): break
            if s in self.tu.records: break
            if s in self.tu.typedefs:
                n = strip(self.tu.typedefs[s])
                if n == s: break
                s = n
            else:
                break
        m = re.match(r"^([A-Za-z_][\w ]*?)( ?)(\(\*\)|\*|\[)(.*)$", s)
        if m and m.group(1) in self.tu.typedefs and m.group(1) not in self.tu.records and m.group(1) not in INTS:
            s = self.resolve(m.group(1)) + m.group(2) + m.group(3) + m.group(4)
        self.cache[t] = s
        return s
    def isint(self, s): return s in INTS or s.startswith("enum ") or s == ""
    def isfloat(self, s): return s in ("double", "float", "long double")
    def isptr(self, s): return "*" in s
    def pointee(self, s):
        m = re.match(r"^(.*)\(\*\)\[(\d+)\]$", s)
        if m: return m.group(1).strip() + "[%s]" % m.group(2)
        m = re.match(r"^(.*)\[[^\]]*\]$", s)
        if m and "(" not in s: return m.group(1).strip()
        if s.endswith("*"): return self.resolve(s[:-1].strip())
        return "?"
    def size(self, s):
        if s in INTS: return max(1, INTS[s][0] // 8)
        if s == "double": return 8
        if s == "float": return 4
        if s.endswith("*") or "(*" in s: return 8
        m = re.match(r"^(.*)\[(\d+)\]$", s)
        if m: return int(m.group(2)) * self.size(m.group(1).strip())
        f = self.fields(s)
        if f: return sum(self.size(self.resolve(t)) for _, t in f)
        if s == "void": return 1
        raise Unsupported("sizeof " + s)
    def fields(self, s):
        s = strip(s)
        return self.tu.records.get(s) or self.tu.records.get("struct " + s)

# ------------------------------------------------------------------ executor
class Outcome:
    __slots__ = ("kind", "st", "val")
    def __init__(self, kind, st, val=None): self.kind = kind; self.st = st; self.val = val

class Exec:
    def __init__(self, tu, contracts, log):
        self.tu = tu; self.ty = Types(tu); self.contracts = contracts; self.log = log
        self.func = "?"; self.quiet = 0; self.loopmemo = {}; self.depth = 0; self.frames = 0; self.trace = None
        self.current = None; self.assumed = set(); self.inlined = set(); self.check_overflow = True
        self.sites = {}
        self.families = []

    # ---- obligations
    def oblige(self, st, kind, label, goal):
        """goal: bool/z3 or a Claim. Afterwards the goal may be assumed on the path."""
        if self.quiet: return
        self.log.check(self.func, kind, label, st, goal)

    # ---- memory
    def newcell(self, st, key, value): st.cells[key] = value
    def load(self, st, lv):
        k = lv[0]
        if k == "cell":
            v = st.cells.get(lv[1], UNDEF)
            for p in lv[2]: v = self.proj(st, v, p)
            if isinstance(v, MaybeNull):
                t = P.decide(st, v.cond)
                if t is not None: v = NULL if t else v.ptr
            return v
        if k == "arr": return self.aread(st, lv[1], lv[2])
        if k == "field":
            a = self.arr(st, lv[1]); self.bounds(st, lv[1], a, lv[2], "read"); return a.extra(self, st, lv[2], lv[3])
        raise Unsupported("load " + str(k))
    def proj(self, st, v, p):
        if isinstance(v, dict): return v.get(p, UNDEF)
        if isinstance(v, (list, tuple)):
            if isinstance(p, IP):
                self.oblige(st, "bounds", "index of a local array", and_(cmp("<=", 0, p), cmp("<", p, len(v))))
                r = v[-1]
                for k in range(len(v) - 2, -1, -1): r = self.ite(st, cmp("==", p, k), v[k], r)
                return r
            self.oblige(st, "bounds", "index of a local array", 0 <= p < len(v))
            return v[p] if 0 <= p < len(v) else UNDEF
        if isinstance(v, IteV): return self.ite(st, v.c, self.proj(st, v.a, p), self.proj(st, v.b, p))
        raise Unsupported("member %s of %r" % (p, v))
    def store(self, st, lv, val):
        k = lv[0]
        if k == "cell":
            st.cells[lv[1]] = self.inject(st, st.cells.get(lv[1], UNDEF), lv[2], val)
            st.touched.add(lv[1])
        elif k == "arr": self.awrite(st, lv[1], lv[2], val)
        else: raise Unsupported("store")
    def inject(self, st, v, path, val):
        if not path: return val
        p = path[0]
        if isinstance(v, dict):
            n = dict(v); n[p] = self.inject(st, v.get(p, UNDEF), path[1:], val); return n
        if isinstance(v, (list, tuple)):
            n = list(v)
            if isinstance(p, IP):
                self.oblige(st, "bounds", "index of a local array", and_(cmp("<=", 0, p), cmp("<", p, len(v))))
                return [self.ite(st, cmp("==", p, k), self.inject(st, v[k], path[1:], val), v[k]) for k in range(len(v))]
            self.oblige(st, "bounds", "index of a local array", 0 <= p < len(v))
            if 0 <= p < len(n): n[p] = self.inject(st, v[p], path[1:], val)
            return n
        raise Unsupported("store to member of %r" % (v,))
    def arr(self, st, obj):
        a = st.arrays.get(obj)
        if a is None: raise Unsupported("unknown array object " + str(obj))
        return a
    def place(self, a, idx):
        """position of an element in an array with a stride"""
        if a.stride is None or not isinstance(idx, IP): return idx
        import k_walk
        i = k_walk.divide(idx, a.stride)
        if i is None: raise Unsupported("offset %r in the strided %s" % (idx, a.label))
        return i
    def aread(self, st, obj, idx):
        a = self.arr(st, obj); idx = self.place(a, idx)
        self.bounds(st, obj, a, idx, "read")
        if a.kind == "double":
            return P.aread(st, a, idx)
        if a.kind in ("int",):
            return P.aread_int(st, a, idx)
        raise Unsupported("read of array kind " + a.kind)
    def awrite(self, st, obj, idx, val):
        a = self.arr(st, obj); idx = self.place(a, idx)
        self.bounds(st, obj, a, idx, "write")
        if a.readonly: self.oblige(st, "frame", "write to the read-only %s" % a.label, False)
        if a.kind == "double":
            if not isinstance(val, (RT, D, int, float, IP)): raise Unsupported("store of %r to a double array" % (val,))
            if isinstance(val, (int, float, IP)): val = real(val)
            if isinstance(val, D) and not a.nanok and not getattr(self.current, "div0nan", False):
                self.oblige(st, "nan", "no NaN stored to %s" % a.label, not_(val.nan)); val = val.val
        st.arrays[obj] = a.write(idx, val)
        st.touched_arr.add(obj)
    def bounds(self, st, obj, a, idx, what):
        if a.freed: self.oblige(st, "bounds", "%s of freed %s" % (what, a.label), False)
        lo = cmp("<=", 0, idx)
        hi = cmp("<", idx, a.size) if a.size is not None else True
        self.oblige(st, "bounds", "%s of %s" % (what, a.label), and_(lo, hi))

    def ite(self, st, c, a, b):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if isinstance(a, dict) and isinstance(b, dict):
            return {k: self.ite(st, c, a.get(k, UNDEF), b.get(k, UNDEF)) for k in set(a) | set(b)}
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            return [self.ite(st, c, x, y) for x, y in zip(a, b)]
        if isinstance(a, (D, RT)) or isinstance(b, (D, RT)):
            if isinstance(a, (Undef,)) or isinstance(b, Undef): return UNDEF
            n1, n2 = nanof(a), nanof(b)
            n = False if n1 is False and n2 is False else or_(and_(c, n1), and_(not_(c), n2))
            return mkd(n, rite(c, valof(a), valof(b)))
        if isint(a) and isint(b):
            if isinstance(a - b, int) and a - b == 0: return a
            return iz(z3.If(c, zi(a), zi(b)))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, self.ite(st, c, a.off, b.off))
        if isinstance(a, Null) and isinstance(b, Null): return a
        if isinstance(a, Ref) and isinstance(b, Ref) and (a.cell, a.path) == (b.cell, b.path): return a
        if isinstance(a, Fun) and isinstance(b, Fun) and a.name == b.name: return a
        return IteV(c, a, b)

    # ---- running a function
    def run(self, name, args, st):
        """execute a function body: list of (state, return value)"""
        fn = self.tu.functions.get(name)
        if fn is None: raise Unsupported("no body of " + name)
        fr = st.frame + (getattr(self, "site", "0"),) if isinstance(st.frame, tuple) else (self.frames,)
        if self.depth > 40: raise Unsupported("inlining depth at " + name)
        params = [c for c in fn.get("inner", ()) if c["kind"] == "ParmVarDecl"]
        body = [c for c in fn["inner"] if c["kind"] == "CompoundStmt"][0]
        if len(params) != len(args): raise Unsupported("arity of " + name)
        saved = st.frame
        st = st.copy(); st.frame = fr
        for p, a in zip(params, args):
            st.cells[(fr, p["id"])] = self.fit(a, self.ty.of(p))
            st.names[(fr, p["id"])] = p.get("name", "?")
        self.depth += 1
        try:
            outs = self.stmt(body, st)
        finally:
            self.depth -= 1
        res = []
        for o in outs:
            if o.kind == "goto": raise Unsupported("backward goto in " + name)
            o.st.frame = saved
            res.append((o.st, o.val if o.kind == "return" else None))
        return res
    def fit(self, v, t):
        if self.ty.isfloat(t) and isinstance(v, (int, IP, float)) and not isinstance(v, bool): return real(v)
        return v

    # ---- statements
    def stmt(self, n, st):
        k = n["kind"]
        f = getattr(self, "s_" + k, None)
        if f is None:
            # expression statement
            outs = []
            for s, v in self.ev(n, st): outs.append(Outcome("norm", s))
            return outs
        return f(n, st)
    def seq(self, stmts, st):
        """statement list with forward gotos to labels of the list"""
        cur = [Outcome("norm", st)]; done = []
        pend = []          # goto outcomes waiting for their labels
        for s in stmts:
            lab = s.get("declId") if s["kind"] == "LabelStmt" else None
            if lab:
                hit = [o for o in pend if o.val == lab]
                pend = [o for o in pend if o.val != lab]
                cur += [Outcome("norm", o.st) for o in hit]
            nxt = []
            for o in cur:
                for r in self.stmt(s, o.st):
                    if r.kind == "norm": nxt.append(r)
                    elif r.kind == "goto": pend.append(r)
                    else: done.append(r)
            cur = nxt
            if len(cur) > 4000: raise Unsupported("too many paths")
        return cur + done + pend
    def s_CompoundStmt(self, n, st): return self.seq(n.get("inner", []), st)
    def s_LabelStmt(self, n, st): return self.stmt(n["inner"][0], st)
    def s_GotoStmt(self, n, st): return [Outcome("goto", st, n["targetLabelDeclId"])]
    def s_NullStmt(self, n, st): return [Outcome("norm", st)]
    def s_DeclStmt(self, n, st):
        cur = [st]
        for d in n.get("inner", ()):
            if d["kind"] != "VarDecl":
                continue
            nxt = []
            for s in cur: nxt += self.vardecl(d, s)
            cur = nxt
        return [Outcome("norm", s) for s in cur]
    def vardecl(self, d, st):
        key = (st.frame, d["id"]); t = self.ty.of(d)
        st.names[key] = d.get("name", "?")
        inits = [c for c in d.get("inner", ()) if c["kind"] not in ("FullComment", "UnusedAttr")]
        m = re.match(r"^(.*)\[([^\]]*)\]$", t)
        if m and "(" not in t:
            et = self.ty.resolve(m.group(1).strip())
            if m.group(2).isdigit():
                cnt = int(m.group(2))
                if inits:
                    return [self.setcell(s, key, v) for s, v in self.init(inits[0], st, t)]
                st.cells[key] = [UNDEF] * cnt
                return [st]
            # variable length array: object with symbolic size
            vla = [c for c in d.get("inner", ())]
            raise Unsupported("variable length array " + d.get("name", ""))
        if inits:
            return [self.setcell(s, key, self.fit(v, t)) for s, v in self.init(inits[0], st, t)]
        st.cells[key] = self.blank(t)
        return [st]
    def blank(self, t):
        m = re.match(r"^(.*)\[(\d+)\]$", t)
        if m and "(" not in t: return [self.blank(self.ty.resolve(m.group(1).strip()))] * int(m.group(2))
        f = self.ty.fields(t)
        if not f: return UNDEF
        vs = [(a, self.blank(self.ty.resolve(b))) for a, b in f]
        return {a: v for a, v in vs if v is not UNDEF and v != {}}
    def setcell(self, st, key, v): st.cells[key] = v; st.touched.add(key); return st
    def init(self, n, st, t):
        if n["kind"] == "InitListExpr":
            items = n.get("inner") or []
            fields = self.ty.fields(t)
            if fields:
                out = [(st, {})]
                for idx, (fname, ft) in enumerate(fields):
                    if idx < len(items): out = [(s2, {**v, fname: x}) for s, v in out for s2, x in self.init(items[idx], s, self.ty.resolve(ft))]
                    else: out = [(s, {**v, fname: self.zero(self.ty.resolve(ft))}) for s, v in out]
                return out
            m = re.match(r"^(.*)\[(\d+)\]$", t)
            if m:
                et = self.ty.resolve(m.group(1).strip()); cnt = int(m.group(2))
                if n.get("array_filler"): items = [c for c in n["array_filler"] if c.get("kind") != "ImplicitValueInitExpr"]
                out = [(st, [])]
                for idx in range(cnt):
                    if idx < len(items): out = [(s2, v + [self.fit(x, et)]) for s, v in out for s2, x in self.init(items[idx], s, et)]
                    else: out = [(s, v + [self.zero(et)]) for s, v in out]
                return out
            if len(items) == 1: return self.init(items[0], st, t)
            raise Unsupported("initialiser of " + t)
        if n["kind"] == "ImplicitValueInitExpr": return [(st, self.zero(t))]
        return [(s, self.fit(v, t)) for s, v in self.ev(n, st)]
    def zero(self, t):
        if self.ty.isint(t): return 0
        if self.ty.isfloat(t): return real(0)
        if self.ty.isptr(t): return NULL
        m = re.match(r"^(.*)\[(\d+)\]$", t)
        if m: return [self.zero(self.ty.resolve(m.group(1).strip()))] * int(m.group(2))
        f = self.ty.fields(t)
        if f: return {a: self.zero(self.ty.resolve(b)) for a, b in f}
        raise Unsupported("zero of " + t)

    def s_ReturnStmt(self, n, st):
        if not n.get("inner"): return [Outcome("return", st)]
        return [Outcome("return", s, v) for s, v in self.ev(n["inner"][0], st)]
    def s_BreakStmt(self, n, st): return [Outcome("break", st)]
    def s_ContinueStmt(self, n, st): return [Outcome("continue", st)]
    def s_IfStmt(self, n, st):
        inner = n["inner"]
        outs = []
        for s, c in self.cond(inner[0], st):
            for b, s2 in self.fork(s, c):
                if b: outs += self.stmt(inner[1], s2)
                elif n.get("hasElse"): outs += self.stmt(inner[2], s2)
                else: outs.append(Outcome("norm", s2))
        return outs
    def fork(self, st, c):
        if c is True: return [(True, st)]
        if c is False: return [(False, st)]
        res = []
        v = P.decide(st, c)
        if v is True: return [(True, st)]
        if v is False: return [(False, st)]
        a = st.copy(); a.assume(c); b = st.copy(); b.assume(not_(c))
        P.pin(a, c); P.pin(b, not_(c))
        tr = st.ghost.get("trail", ())
        a.ghost["trail"] = tr + (1,); b.ghost["trail"] = tr + (0,)
        return [(True, a), (False, b)]
    def s_SwitchStmt(self, n, st):
        inner = n["inner"]; outs = []
        body = inner[-1]
        cases = body.get("inner", [])
        flat = []          # (label values or 'default' or None, stmt)
        def walk(c):
            labs = []
            while c["kind"] in ("CaseStmt", "DefaultStmt"):
                if c["kind"] == "CaseStmt":
                    labs.append(("case", c["inner"][0])); c = c["inner"][1]
                else:
                    labs.append(("default", None)); c = c["inner"][0]
            flat.append((labs, c))
        for c in cases: walk(c)
        for s, v in self.ev(inner[0], st):
            rest = s; anyd = None
            for pos, (labs, _) in enumerate(flat):
                for lk, le in labs:
                    if lk == "default": anyd = pos; continue
                    (_, lv), = self.ev(le, rest)
                    c = cmp("==", v, lv)
                    nr = None
                    for b, s2 in self.fork(rest, c):
                        if b: outs += self.swrun(flat, pos, s2)
                        else: nr = s2
                    rest = nr
                    if rest is None: break
                if rest is None: break
            if rest is not None:
                outs += self.swrun(flat, anyd, rest) if anyd is not None else [Outcome("norm", rest)]
        return outs
    def swrun(self, flat, pos, st):
        res = []
        for o in self.seq([s for _, s in flat[pos:]], st):
            res.append(Outcome("norm", o.st) if o.kind == "break" else o)
        return res

    # ---- loops
    def s_ForStmt(self, n, st):
        init, _, cond, inc, body = n["inner"]
        outs = []
        pre = self.stmt(init, st) if init.get("kind") else [Outcome("norm", st)]
        for o in pre: outs += self.loop(n, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, o.st)
        return outs
    def s_WhileStmt(self, n, st): return self.loop(n, n["inner"][0], None, n["inner"][-1], st)
    def s_DoStmt(self, n, st):
        body, cond = n["inner"]
        outs = []
        for o in self.stmt(body, st):      # first iteration, then a while loop
            if o.kind in ("norm", "continue"): outs += self.loop(n, cond, None, body, o.st)
            elif o.kind == "break": outs.append(Outcome("norm", o.st))
            else: outs.append(o)
        return outs

    def iteration(self, cond, inc, body, st):
        """one iteration from a loop head: (exit states, next-head states, other outcomes)"""
        ex, nx, oth = [], [], []
        for s, c in (self.cond(cond, st) if cond is not None else [(st, True)]):
            for b, s2 in self.fork(s, c):
                if not b: ex.append(s2); continue
                for o in self.stmt(body, s2):
                    if o.kind in ("norm", "continue"):
                        if inc is None: nx.append(o.st)
                        else: nx += [s3 for s3, _ in self.ev(inc, o.st)]
                    elif o.kind == "break": ex.append(o.st)
                    else: oth.append(o)
        return ex, nx, oth

    def loop(self, node, cond, inc, body, st):
        import loops
        if self.trace is not None:
            import trace
            return trace.loop(self, node, cond, inc, body, st)
        return loops.cut(self, node, cond, inc, body, st)

    # ---- expressions: list of (state, value)
    def cond(self, n, st):
        return [(s, self.truth(s, v)) for s, v in self.ev(n, st)]
    def truth(self, st, v):
        if isinstance(v, bool): return v
        if isinstance(v, z3.BoolRef): return v
        if isint(v): return self.boolof(v)
        if isinstance(v, (RT,)): return cmp("!=", v, 0)
        if isinstance(v, D): return or_(v.nan, cmp("!=", v.val, 0))
        if isinstance(v, Null): return False
        if isinstance(v, (Ptr, Ref, Fun)): return True
        if isinstance(v, MaybeNull): return not_(v.cond)
        if isinstance(v, IteV): return or_(and_(v.c, zb(self.truth(st, v.a))), and_(not_(v.c), zb(self.truth(st, v.b))))
        raise Unsupported("truth of %r" % (v,))
    def boolof(self, v):
        if not isinstance(v, IP): return v != 0
        b = BOOLS.get(v.key())
        return b if b is not None else cmp("!=", v, 0)
    def asint(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, z3.BoolRef):
            i = iz(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
            if isinstance(i, IP): BOOLS[i.key()] = v
            return i
        return v
    def dint(self, st, v):
        """a truth value as an integer, decided by the path condition where possible"""
        b = v if isinstance(v, z3.BoolRef) else BOOLS.get(v.key()) if isinstance(v, IP) else None
        d = P.decide(st, b) if b is not None else None
        return int(d) if d is not None else self.asint(v)
    def ev(self, n, st):
        f = getattr(self, "e_" + n["kind"], None)
        if f is None: raise Unsupported("expression " + n["kind"])
        return f(n, st)
    def e_ParenExpr(self, n, st): return self.ev(n["inner"][0], st)
    e_ConstantExpr = e_ParenExpr
    def e_IntegerLiteral(self, n, st): return [(st, int(n["value"]))]
    def e_CharacterLiteral(self, n, st): return [(st, int(n["value"]))]
    def e_FloatingLiteral(self, n, st):
        v = n["value"]
        return [(st, rt("const", Fraction(repr(float(v)))))]           # the shortest decimal of the double
    def e_StringLiteral(self, n, st): return [(st, Opaque("string " + n.get("value", "")))]
    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get("name") != "sizeof": raise Unsupported(str(n.get("name")))
        t = n.get("argType", {}).get("desugaredQualType") or n.get("argType", {}).get("qualType")
        if t is None: t = n["inner"][0]["type"].get("desugaredQualType") or n["inner"][0]["type"]["qualType"]
        return [(st, self.ty.size(self.ty.resolve(t)))]
    def e_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl": return [(st, self.tu.enums[d["name"]])]
        if d["kind"] == "FunctionDecl": return [(st, Fun(d["name"]))]
        lv = self.lv(n, st)
        return [(s, self.load(s, l)) for s, l in lv]
    def e_ImplicitCastExpr(self, n, st):
        k = n.get("castKind"); x = n["inner"][0]
        if k == "LValueToRValue":
            out = []
            for s, l in self.lv(x, st):
                v = self.load(s, l)
                if isinstance(v, Undef):
                    self.oblige(s, "uninit", "read of the uninitialised %s" % s.names.get(l[1], "?") if l[0] == "cell" else "read", False)
                    v = self.havocv(self.ty.of(n), "uninit")
                out.append((s, v))
            return out
        if k in ("FunctionToPointerDecay", "BuiltinFnToFnPtr", "NoOp", "BitCast"):
            return [(s, self.ptrcast(s, v, n, x) if k == "BitCast" else v) for s, v in self.ev(x, st)]
        if k == "ArrayToPointerDecay":
            if x["kind"] == "StringLiteral" or self.ty.of(x).startswith("char"):
                if x["kind"] in ("StringLiteral", "PredefinedExpr"): return self.ev(x, st)
            return [(s, self.addr(s, l)) for s, l in self.lv(x, st)]
        if k in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "BooleanToSignedIntegral"):
            t = self.ty.of(n)
            out = []
            for s, v in self.ev(x, st):
                if k != "IntegralCast": out.append((s, self.asint(self.truth(s, v)) if t != "_Bool" else self.truth(s, v)))
                else: out.append((s, self.toint(s, self.asint(v), t, "conversion")))
            return out
        if k == "IntegralToFloating":
            return [(s, real(self.asint(v))) for s, v in self.ev(x, st)]
        if k == "FloatingCast": return self.ev(x, st)
        if k == "FloatingToIntegral":
            out = []
            for s, v in self.ev(x, st):
                out.append((s, self.f2i(s, v, self.ty.of(n))))
            return out
        if k == "NullToPointer": return [(st, NULL)]
        if k == "ToVoid": return [(s, None) for s, v in self.ev(x, st)]
        if k == "IntegralToPointer":
            return [(s, NULL if v == 0 and isinstance(v, int) else Opaque("pointer")) for s, v in self.ev(x, st)]
        raise Unsupported("cast " + str(k))
    e_CStyleCastExpr = e_ImplicitCastExpr
    def ptrcast(self, st, v, n, x):
        p = v.ptr if isinstance(v, MaybeNull) else v
        if isinstance(p, Ptr) and p.obj in st.ghost.get("heap", ()) and not isinstance(p.off, IP) and p.off == 0:
            a = st.arrays[p.obj]; t = self.ty.resolve(self.ty.of(n)); e = self.ty.pointee(t) if self.ty.isptr(t) else ""
            if a.kind == "double" and not a.writes and e and self.ty.isint(self.ty.resolve(e)) and self.ty.size(e) == 8:      # a block of long integers
                b = a.clone(); b.kind = "int"; st.arrays[p.obj] = b
        return v
    def toint(self, st, v, t, what):
        """conversion of an integer value to type t (unsigned wraps, signed must fit)"""
        if not isint(v):
            if isinstance(v, (bool, z3.BoolRef)): return self.asint(v)
            raise Unsupported("integer conversion of %r" % (v,))
        if t.startswith("enum "): return v
        bits, signed = INTS.get(t, (64, True))
        if t == "_Bool": return self.asint(self.boolof(v))
        if signed:
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
            if isinstance(v, int):
                if not lo <= v <= hi: self.oblige(st, "overflow", what + " to " + t, False)
                return v
            if self.check_overflow: self.oblige(st, "overflow", what + " to " + t, and_(cmp("<=", lo, v), cmp("<=", v, hi)))
            return v
        if isinstance(v, int): return v % (1 << bits)
        c = cmp(">=", v, 0)
        if P.decide(st, c) is True:
            if self.check_overflow: self.oblige(st, "overflow", what + " to " + t, cmp("<", v, 1 << bits))
            return v
        if P.decide(st, c) is False: 
            if self.check_overflow: self.oblige(st, "overflow", what + " to " + t, cmp(">=", v, -(1 << bits)))
            return v + (1 << bits)
        return iz(z3.If(zb(c), zi(v), zi(v + (1 << bits))))
    def f2i(self, st, v, t):
        bits, signed = INTS[t]
        if isinstance(v, D):
            self.oblige(st, "f2i", "conversion of NaN to integer", not_(v.nan)); v = v.val
        if isinstance(v, RT) and v.op == "int":
            return self.toint(st, v.a[0], t, "conversion")
        # truncation toward zero
        if T.ASG[0] is not None:
            import trace
            return self.toint(st, int(trace.evr(v, T.ASG[0])), t, "conversion")
        z = zr(v); d = P.decide(st, z >= 0) if isinstance(v, RT) else None
        if d is not None: return self.toint(st, floorint(v, z) if d else 0 - floorint(0 - v, zr(0 - v)), t, "conversion of a double")
        i = iz(z3.If(z >= 0, zi(floorint(v, z)), -zi(floorint(0 - v, -z)))) if isinstance(v, RT) else iz(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
        return self.toint(st, i, t, "conversion of a double")
    def havocv(self, t, name):
        if self.ty.isint(t): return fresh_int(name)
        if self.ty.isfloat(t): return fresh_real(name)
        return UNDEF

    # lvalues
    def lv(self, n, st):
        k = n["kind"]
        if k == "ParenExpr": return self.lv(n["inner"][0], st)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            key = (st.frame, d["id"])
            if key not in st.cells:
                g = ("global", d["name"])
                if g in st.cells: key = g
                elif d["name"] in GLOBALS: st.cells[g] = GLOBALS[d["name"]]; key = g
                elif d["kind"] in ("VarDecl",) : key = self.globalvar(st, d)
                else: raise Unsupported("variable " + d["name"])
            return [(st, ("cell", key, ()))]
        if k == "ArraySubscriptExpr":
            out = []
            b, i = n["inner"]
            for s, bv in self.ev(b, st):
                for s2, iv in self.ev(i, s):
                    if isint(bv): bv, iv = iv, bv
                    p = self.padd(s2, bv, self.asint(iv), self.ty.of(b))
                    out += [(s3, l) for s3, l in self.deref(s2, p, self.ty.of(n))]
            return out
        if k == "UnaryOperator" and n["opcode"] == "*":
            out = []
            for s, v in self.ev(n["inner"][0], st): out += self.deref(s, v, self.ty.of(n))
            return out
        if k == "MemberExpr":
            out = []
            if n.get("isArrow"):
                for s, v in self.ev(n["inner"][0], st):
                    for s2, l in self.deref(s, v, "struct"):
                        out.append((s2, self.member(s2, l, n["name"])))
            else:
                if n["inner"][0]["kind"] in ("CallExpr",) or (n["inner"][0]["kind"] == "ImplicitCastExpr"):
                    raise Unsupported("member of rvalue")
                for s, l in self.lv(n["inner"][0], st): out.append((s, self.member(s, l, n["name"])))
            return out
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.get("castKind") in ("NoOp", "LValueBitCast"):
            return self.lv(n["inner"][0], st)
        if k == "CompoundLiteralExpr":
            key = (st.frame, n["id"])
            return [(self.setcell(s, key, v), ("cell", key, ())) for s, v in self.init(n["inner"][0], st, self.ty.of(n))]
        if k == "BinaryOperator" and n["opcode"] == "=":
            return [(s, l) for s, l, v in self.assign(n, st)]
        raise Unsupported("lvalue " + k)
    def member(self, st, l, name):
        if l[0] == "cell": return ("cell", l[1], l[2] + (name,))
        if l[0] == "arr" and st.arrays[l[1]].kind == "struct": return ("field", l[1], l[2], name)
        raise Unsupported("member of array element")
    def globalvar(self, st, d):
        if d["name"].startswith("PyExc_"): st.cells[("global", d["name"])] = Opaque("global " + d["name"]); return ("global", d["name"])
        raise Unsupported("global variable " + d["name"])
    def deref(self, st, v, t):
        if isinstance(v, Ptr): return [(st, ("arr", v.obj, v.off))]
        if isinstance(v, Ref): return [(st, ("cell", v.cell, v.path))]
        if isinstance(v, MaybeNull):
            self.oblige(st, "null", "dereference of a NULL pointer", not_(v.cond)); st.assume(not_(v.cond))
            return self.deref(st, v.ptr, t)
        if isinstance(v, IteV):
            out = []
            for b, s in self.fork(st, v.c): out += self.deref(s, v.a if b else v.b, t)
            return out
        if isinstance(v, Null):
            self.oblige(st, "null", "dereference of a NULL pointer", False)
            st.assume(z3.BoolVal(False)); return []
        raise Unsupported("dereference of %r" % (v,))
    def addr(self, st, l):
        if l[0] == "arr": return Ptr(l[1], l[2])
        v = st.cells.get(l[1], UNDEF)
        return Ref(l[1], l[2])
    def unit(self, st, obj): return st.arrays[obj].unit
    def padd(self, st, p, i, t):
        if isinstance(p, Ptr):
            es = self.ty.size(self.ty.pointee(t)); u = self.unit(st, p.obj)
            if es % u and isint(i) and all(c * es % u == 0 for c in (i.t.values() if isinstance(i, IP) else [i])):
                return Ptr(p.obj, p.off + (mk({m: c * es // u for m, c in i.t.items()}) if isinstance(i, IP) else i * es // u))
            if es % u: raise Unsupported("pointer arithmetic %s on %s" % (t, p.obj))
            return Ptr(p.obj, p.off + (es // u) * i)
        if isinstance(p, Ref):
            # array inside of a cell
            v = self.load(st, ("cell", p.cell, p.path))
            if isinstance(v, (list, tuple)): return Ref(p.cell, p.path + (i,))
            if p.path and (isint(p.path[-1])): return Ref(p.cell, p.path[:-1] + (p.path[-1] + i,))
            if isinstance(i, int) and i == 0: return p
            raise Unsupported("pointer arithmetic on a variable")
        if isinstance(p, MaybeNull): return MaybeNull(p.cond, self.padd(st, p.ptr, i, t))
        if isinstance(p, IteV): return IteV(p.c, self.padd(st, p.a, i, t), self.padd(st, p.b, i, t))
        if isinstance(p, Null) and isinstance(i, int) and i == 0: return p
        if isinstance(p, Null):
            return NULL
        raise Unsupported("pointer arithmetic on %r" % (p,))
    def e_ArraySubscriptExpr(self, n, st): return [(s, self.load(s, l)) for s, l in self.lv(n, st)]
    def e_MemberExpr(self, n, st):
        if not n.get("isArrow") and n["inner"][0]["kind"] in ("CallExpr", "ImplicitCastExpr"):
            return [(s, self.proj(s, v, n["name"])) for s, v in self.ev(n["inner"][0], st)]
        return [(s, self.load(s, l)) for s, l in self.lv(n, st)]
    def e_CompoundLiteralExpr(self, n, st): return self.init(n["inner"][0], st, self.ty.of(n))
    def e_InitListExpr(self, n, st): return self.init(n, st, self.ty.of(n))

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]; x = n["inner"][0]; t = self.ty.of(n)
        if op == "&":
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl": return [(st, Fun(x["referencedDecl"]["name"]))]
            return [(s, self.addr(s, l)) for s, l in self.lv(x, st)]
        if op == "*": return [(s, self.load(s, l)) for s, l in self.lv(n, st)]
        if op == "!": return [(s, self.asint(not_(self.truth(s, v)))) for s, v in self.ev(x, st)]
        if op in ("++", "--"):
            out = []
            for s, l in self.lv(x, st):
                v = self.load(s, l)
                if isinstance(v, Undef): self.oblige(s, "uninit", "read", False); v = self.havocv(t, "uninit")
                d = 1 if op == "++" else -1
                if isinstance(v, (Ptr, Ref, MaybeNull, IteV)): w = self.padd(s, v, d, self.ty.of(x))
                elif isinstance(v, (RT, D)): w = self.farith("+", v, real(d))
                else: w = self.iarith(s, "+", v, d, t)
                self.store(s, l, w)
                out.append((s, v if n.get("isPostfix") else w))
            return out
        out = []
        for s, v in self.ev(x, st):
            if op == "-":
                if isinstance(v, (RT, D)): out.append((s, mkd(nanof(v), rneg(valof(v)))))
                else: out.append((s, self.toint(s, 0 - self.asint(v), t, "negation")))
            elif op == "+": out.append((s, v))
            elif op == "~": 
                out.append((s, -1 - self.asint(v)))
            elif op == "__extension__": out.append((s, v))
            else: raise Unsupported("unary " + op)
        return out
    def e_BinaryOperator(self, n, st):
        op = n["opcode"]; a, b = n["inner"]
        if op == "=": return [(s, v) for s, l, v in self.assign(n, st)]
        if op == ",":
            out = []
            for s, _ in self.ev(a, st): out += self.ev(b, s)
            return out
        if op in ("&&", "||"):
            out = []
            for s, c in self.cond(a, st):
                # no side effects: keep as a formula
                if pure(b):
                    # b evaluated under the condition
                    if c is (op == "||"): out.append((s, self.asint(c))); continue
                    if isinstance(c, bool): out += [(s2, self.asint(d)) for s2, d in self.cond(b, s)]; continue
                    s1 = s.copy(); s1.assume(c if op == "&&" else not_(c))
                    if P.decide(s, c) is (op == "||"):
                        out.append((s, self.asint(op == "||"))); continue
                    (s2, d), = self.cond(b, s1)
                    out.append((s, self.asint(and_(c, d) if op == "&&" else or_(c, d))))
                else:
                    for t, s1 in self.fork(s, c):
                        if t == (op == "||"): out.append((s1, int(t)))
                        else: out += [(s2, self.asint(d)) for s2, d in self.cond(b, s1)]
            return out
        out = []
        for s, x in self.ev(a, st):
            for s2, y in self.ev(b, s):
                out.append((s2, self.binop(s2, op, x, y, self.ty.of(n), self.ty.of(a), self.ty.of(b))))
        return out
    def binop(self, st, op, x, y, t, ta, tb):
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(st, op, x, y)
        if self.ty.isptr(t) or ("[" in ta and op in "+-"):
            if isinstance(x, (Ptr, Ref, MaybeNull, IteV, Null)):
                return self.padd(st, x, self.asint(y) if op == "+" else 0 - self.asint(y), ta)
            return self.padd(st, y, self.asint(x), tb)
        if isinstance(x, (Ptr,)) and isinstance(y, Ptr) and op == "-":
            if x.obj != y.obj: raise Unsupported("difference of unrelated pointers")
            es = self.ty.size(self.ty.pointee(ta)) // self.unit(st, x.obj)
            if es != 1: raise Unsupported("pointer difference")
            return x.off - y.off
        if self.ty.isfloat(t):
            x = real(x) if isint(x) else x; y = real(y) if isint(y) else y
            if isinstance(x, (bool, z3.BoolRef)): x = real(self.asint(x))
            if isinstance(y, (bool, z3.BoolRef)): y = real(self.asint(y))
            if op == "/":
                if getattr(self.current, "div0nan", False) and not (isconst(valof(y)) and valof(y).a[0] != 0):
                    # a zero divisor gives a non-finite result, carried like NaN
                    g = cmp("==", valof(y), 0)
                    return mkd(or_(or_(nanof(x), nanof(y)), g), rdiv(valof(x), valof(y))) if g is not True else NANV
                self.div0(st, y)
            return self.farith(op, x, y)
        return self.iarith(st, op, self.dint(st, x), self.dint(st, y), t)
    def div0(self, st, y):
        v = valof(y)
        if isconst(v) and v.a[0] != 0: return
        g = cmp("!=", v, 0)
        if isinstance(y, D): g = or_(y.nan, g)
        self.oblige(st, "div0", "divisor", P.RealGoal("nonzero", v, None) if not isinstance(y, D) else g)
    def farith(self, op, x, y):
        a, b = valof(x), valof(y)
        if not isinstance(a, RT) or not isinstance(b, RT): raise Unsupported("arithmetic on %r %r" % (x, y))
        nan = False if nanof(x) is False and nanof(y) is False else or_(nanof(x), nanof(y))
        r = {"+": radd, "*": rmul, "/": rdiv, "-": lambda p, q: radd(p, rneg(q))}[op](a, b)
        return mkd(nan, r)
    def iarith(self, st, op, x, y, t):
        if not isint(x) or not isint(y): raise Unsupported("integer arithmetic on %r %r" % (x, y))
        if op == "+": r = x + y
        elif op == "-": r = x - y
        elif op == "*":
            r = x * y
            if STRIDES and isinstance(r, IP) and any(a in STRIDES for m in r.t for a in m): return r    # byte offset inside of an array
        elif op in ("/", "%"):
            g = cmp("!=", y, 0)
            if g is not True: self.oblige(st, "div0", "integer divisor", g)
            if isinstance(x, int) and isinstance(y, int):
                if y == 0: return 0
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return q if op == "/" else x - q * y
            if op == "/" and y == 2:
                h = half(x)
                if h is not None: return h       # x = y(y+1) is even and the division exact
            if not isinstance(y, int) or y <= 0: raise Unsupported("division by a non-constant")
            if all(c % y == 0 for c in terms_of(x).values()):
                return mk({m: c // y for m, c in x.t.items()}) if op == "/" else 0
            nonneg = P.decide(st, cmp(">=", x, 0))
            zx = zi(x)
            if nonneg is True: q = iz(zx / z3.IntVal(y))
            elif nonneg is False: q = iz(-((-zx) / z3.IntVal(y)))
            else: q = iz(z3.If(zx >= 0, zx / z3.IntVal(y), -((-zx) / z3.IntVal(y))))
            P.note_div(zx, y, q)
            return q if op == "/" else x - y * q
        elif op == ">>" and isinstance(x, IP) and isinstance(y, int) and 0 <= y < 63: return iz(zi(x) / z3.IntVal(1 << y))
        elif op == "<<" and isinstance(y, int): r = x * (1 << y)
        elif op == "&" and isinstance(x, int) and isinstance(y, int): return x & y
        elif op == "&" and isinstance(y, int) and (y & (y + 1)) == 0:
            if isinstance(x, IP): return iz(zi(x) % z3.IntVal(y + 1))
            return x & y
        elif op == "&" and isinstance(y, int) and y > 0 and (y & (y - 1)) == 0:
            return iz(((zi(x) / z3.IntVal(y)) % 2) * y)
        elif op in ("|", "^", ">>", "<<") and isinstance(x, int) and isinstance(y, int):
            return {"|": x | y, "^": x ^ y, ">>": x >> y, "<<": x << y}[op]
        else: raise Unsupported("integer operator %s" % op)
        return self.toint(st, r, t, "result of " + op)
    def compare(self, st, op, x, y):
        if isinstance(x, (bool, z3.BoolRef)): x = self.asint(x)
        if isinstance(y, (bool, z3.BoolRef)): y = self.asint(y)
        if isinstance(x, D) or isinstance(y, D):
            n = or_(nanof(x), nanof(y)); c = cmp(op, valof(x), valof(y))
            return or_(n, c) if op == "!=" else and_(not_(n), c)
        if isinstance(x, (RT, IP, int)) and isinstance(y, (RT, IP, int)): return cmp(op, x, y)
        if isinstance(x, IteV): return or_(and_(x.c, zb(self.compare(st, op, x.a, y))), and_(not_(x.c), zb(self.compare(st, op, x.b, y))))
        if isinstance(y, IteV): return self.compare(st, op, y, x)
        eq = None
        if isinstance(x, Null) and isinstance(y, Null): eq = True
        elif isinstance(x, Null) or isinstance(y, Null):
            p = y if isinstance(x, Null) else x
            eq = p.cond if isinstance(p, MaybeNull) else False if isinstance(p, (Ptr, Ref, Fun, Opaque)) else None
        elif isinstance(x, Fun) and isinstance(y, Fun): eq = x.name == y.name
        elif isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj == y.obj: return cmp(op, x.off, y.off)
            eq = False
        elif isinstance(x, Ref) and isinstance(y, Ref): eq = (x.cell, x.path) == (y.cell, y.path)
        if eq is None or op not in ("==", "!="): raise Unsupported("comparison of %r %r" % (x, y))
        return eq if op == "==" else not_(eq)
    def assign(self, n, st):
        l, r = n["inner"]; out = []
        for s, v in self.ev(r, st):
            for s2, lv in self.lv(l, s):
                v2 = self.fit(v, self.ty.of(l))
                if isinstance(v2, (bool, z3.BoolRef)): v2 = self.asint(v2)
                self.store(s2, lv, v2); out.append((s2, lv, v2))
        return out
    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]; l, r = n["inner"]; out = []
        ct = self.ty.resolve(n.get("computeResultType", {}).get("desugaredQualType") or n.get("computeResultType", {}).get("qualType", ""))
        for s, y in self.ev(r, st):
            for s2, lv in self.lv(l, s):
                x = self.load(s2, lv)
                if isinstance(x, Undef): self.oblige(s2, "uninit", "read", False); x = self.havocv(self.ty.of(l), "uninit")
                v = self.binop(s2, op, x, y, ct, self.ty.of(l), self.ty.of(r))
                if self.ty.isint(self.ty.of(l)) and isinstance(v, (RT, D)): v = self.f2i(s2, v, self.ty.of(l))
                if isinstance(v, (bool, z3.BoolRef)): v = self.asint(v)
                v = self.fit(v, self.ty.of(l))
                self.store(s2, lv, v); out.append((s2, v))
        return out
    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]; out = []
        for s, cv in self.cond(c, st):
            d = cv if isinstance(cv, bool) else P.decide(s, cv)
            if d is True: out += self.ev(a, s); continue
            if d is False: out += self.ev(b, s); continue
            if pure(a) and pure(b):
                s1 = s.copy(); s1.assume(cv); s2 = s.copy(); s2.assume(not_(cv))
                ra, rb = self.ev(a, s1), self.ev(b, s2)
                if len(ra) == 1 and len(rb) == 1:
                    t = self.ty.of(n)
                    va, vb = self.fit(self.asint(ra[0][1]), t), self.fit(self.asint(rb[0][1]), t)
                    out.append((s, self.ite(s, cv, va, vb))); continue
            for t, s1 in self.fork(s, cv): out += self.ev(a if t else b, s1)
        return out
    def e_BinaryConditionalOperator(self, n, st): raise Unsupported("?:")
    def e_StmtExpr(self, n, st): raise Unsupported("statement expression")
    def e_PredefinedExpr(self, n, st): return [(st, Opaque("string"))]
    def e_ImplicitValueInitExpr(self, n, st): return [(st, self.zero(self.ty.of(n)))]

    # ---- calls
    def e_CallExpr(self, n, st):
        fexp = n["inner"][0]; out = []
        for s, fv in self.ev(fexp, st):
            fs = [(s, fv)]
            if isinstance(fv, IteV): fs = [(s2, fv.a if b else fv.b) for b, s2 in self.fork(s, fv.c)]
            for s1, f in fs:
                if not isinstance(f, Fun): raise Unsupported("call of %r" % (f,))
                states = [(s1, [])]
                for a in n["inner"][1:]:
                    states = [(s3, vs + [v]) for s2, vs in states for s3, v in self.ev(a, s2)]
                for s2, vs in states:
                    self.callee = f
                    out += self.call(s2, f.name, vs, n)
        return out
    def call(self, st, name, args, n):
        import builtins_c
        if name in self.contracts and not self.contracts[name].inline and not self.trace:
            return self.contracts[name].call(self, st, args)
        b = builtins_c.TABLE.get(name)
        if b is not None:
            r = b(self, st, args, n)
            return r if isinstance(r, list) else [(st, r)]
        if name in self.tu.functions:
            if not self.quiet: self.inlined.add(name)
            self.site = n["id"]
            fn = self.tu.functions[name]
            return self.run(name, args, st)
        raise Unsupported("call of %s" % name)

BOOLS = {}
STRIDES = set()
GLOBALS = {}
IMPURE = {"CompoundAssignOperator", "CallExpr", "StmtExpr"}
PURE_CALLS = {"sin", "cos", "sqrt", "fabs", "isnan", "isfinite", "floor", "ceil", "abs", "hypot", "atan2", "asin", "acos", "tan", "fmod", "cbrt",
              "__builtin_isnan", "__builtin_isfinite", "__builtin_nanf", "__builtin_nan", "__isnan"}
def pure(n):
    k = n.get("kind")
    if k == "CallExpr":
        c = n["inner"][0]
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"): c = c["inner"][0]
        if not (c.get("kind") == "DeclRefExpr" and c["referencedDecl"]["name"] in PURE_CALLS): return False
    elif k in IMPURE: return False
    if k == "BinaryOperator" and n["opcode"] == "=": return False
    if k == "UnaryOperator" and n["opcode"] in ("++", "--"): return False
    if k == "ConditionalOperator": pass
    return all(pure(c) for c in n.get("inner", ()) if isinstance(c, dict))
