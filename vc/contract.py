"""Contracts: base class, verification of one function, use of a contract at a call."""
import time, os, sys
import z3
from terms import *
import prover as P
from prover import State, Arr, ArrClaim, ArrFact, RealGoal, FACTS, Log
import cexec
from cexec import Exec, Ptr, Ref, NULL, D, mkd, nanof, valof, Unsupported, MaybeNull, Fun
from cfront import TU

REPO = os.environ.get("VERIF_REPO", "/repo")
REG = {}           # function name -> Contract

class Contract:
    """A contract of one C function.
    build(x): creates the arguments (symbolic) - x.st is the pre-state; returns (args, env)
    pre(e)   : list of (label, goal) over the environment
    post(e)  : list of (label, item); items: ("arr", ptr, layout, region, val) ("cell", ref, val) ("ret", val) ("prop", goal)
    """
    name = None; inline = False; prop = (); part = None
    def __init__(self): REG[self.name] = self
    def pre(self, e): return []
    def post(self, e): return []
    def reals(self, ex): return []
    def arrays(self, ex): return {}
    def accum(self, ex): return {}         # contents of the arrays as functions of a counter and the position
    def heap(self, ex): return []          # candidate contents of the arrays allocated by the function
    def props(self, ex): return []
    def trigbase(self, e): return []
    ntrace = 5; hard = 0
    cellouts = False     # every output is a single element (an item of the postcondition)
    def sample(self, rng): return {}
    def mods(self, e): return []           # list of Ptr (whole array object) or Ref
    def env(self, args): raise NotImplementedError
    # -------- verification
    def build(self, ex, st): raise NotImplementedError
    def cases(self): return [None]
    def verify(self, ex):
        for case in self.cases()[self.part[0]::self.part[1]] if self.part else self.cases():
            st = State(); st.frame = (); ex.current = self
            self.case = case
            args = self.build(ex, st)
            e = self.env(args); e.st = st; e.ex = ex; e.st0 = st.copy(); e.case = case
            for label, g in self.pre(e):
                assume_goal(st, g)
            if case is not None: assume_goal(st, self.casecond(e, case))
            import trace
            ex.runs = trace.record(ex, self, self.ntrace) if self.ntrace else []
            self.e = e; e2 = self.env(args)
            ex.func = self.name + ("" if case is None else "[%s]" % (case,)); ex.current = self; self.e = e
            ex.loopmemo = {}
            P.TRIGBASE[:] = self.trigbase(e); P.HARD[0] = self.hard
            e.st0 = st.copy()
            # the precondition must be satisfiable
            sat = not P.entails(st.pc, z3.BoolVal(False), 3000)
            ex.vacuity[ex.func] = "precondition satisfiable" if sat else "PRECONDITION UNSATISFIABLE"
            if not sat: ex.log.add(ex.func, "vacuity", "precondition satisfiable", False, "z3", "contradictory precondition", 0)
            st.touched = set(); st.touched_arr = set()
            outs = ex.run(self.name, args, st)
            reach = 0
            for s, ret in outs:
                if P.infeasible(s): continue
                reach += 1
                rs = [(s, ret)]
                if isinstance(ret, MaybeNull):
                    rs = []
                    for c, r in ((ret.cond, NULL), (not_(ret.cond), ret.ptr)):
                        s2 = s.copy(); s2.assume(c)
                        if not P.infeasible(s2): rs.append((s2, r))
                for s, ret in rs:
                    e.st = s; e.ret = ret
                    self.check_post(ex, e, s, ret)
            if not reach: ex.log.add(ex.func, "vacuity", "a return is reachable", False, "z3", "", 0)
            allowed = {p.obj for p in self.mods(e) if isinstance(p, Ptr)}
            for o in st.touched_arr:
                if o in e.st0.arrays and o not in allowed: ex.log.add(ex.func, "frame", "writes to %s" % o, False, "-", "array outside of the frame written", 0)
            okcells = {p.cell for p in self.mods(e) if isinstance(p, Ref)}
            for s, ret in outs:
                if P.infeasible(s): continue
                for k, v in e.st0.cells.items():
                    if k not in okcells and s.cells.get(k) is not v: ex.log.add(ex.func, "frame", "writes to %s" % (k,), False, "-", "variable outside of the frame written", 0)
    def check_post(self, ex, e, s, ret):
        for label, it in self.post(e):
            k = it[0]
            if k == "arr": g = ArrClaim(it[1].obj, it[1].off, it[2], it[3], it[4])
            elif k == "cell": g = eqgoal(ex.load(s, ("cell", it[1].cell, it[1].path)) if isinstance(it[1], Ref) else ex.aread(s, it[1].obj, it[1].off), it[2])
            elif k == "ret": g = eqgoal(ret, it[1])
            elif k == "cellval": g = eqgoal(it[1], it[2])
            elif k == "prop": g = it[1]
            for gg in (g if isinstance(g, list) else [g]):
                ex.log.check(ex.func, "post", label, s, gg)
    # -------- use
    def casecond(self, e, case): return True      # when a case of the contract applies (its cases must be exhaustive)
    def call(self, ex, st, args):
        cases = self.cases()
        if cases == [None]: return self.call1(ex, st, args, None)
        e = self.env(args); e.st = e.st0 = st; e.ex = ex
        conds = [self.casecond(e, c) for c in cases]
        ex.oblige(st, "pre", "%s: a case of the contract applies" % self.name, or_(*conds))
        out = []
        for c, cond in zip(cases, conds):
            s = st.copy(); s.touched = st.touched; s.touched_arr = st.touched_arr
            if cond is not True: s.assume(cond)
            if P.infeasible(s): continue
            out += self.call1(ex, s, args, c)
        return out
    def call1(self, ex, st, args, case):
        e = self.env(args); e.st = st; e.st0 = st; e.ex = ex; e.case = case; self.case = case
        for label, g in self.pre(e):
            ex.oblige(st, "pre", "%s: %s" % (self.name, label), g)
            if isinstance(g, (z3.BoolRef, P.Pos)): assume_goal(st, g)
        new = st.copy(); new.touched = st.touched; new.touched_arr = st.touched_arr
        bases = {}
        for p in self.mods(e):
            if isinstance(p, Ptr):
                if p.obj in bases or self.cellouts: continue
                a = new.arrays[p.obj]
                if a.readonly: ex.oblige(st, "frame", "%s writes the read-only %s" % (self.name, a.label), False)
                b = a.clone(); b.base = fresh_name(a.label); b.writes = (); new.arrays[p.obj] = b; bases[p.obj] = (a, b)
                new.touched_arr.add(p.obj)
        e.st0 = st; e.st = new; e.ret = None
        ret = self.result(ex, e)
        e.ret = ret
        for label, it in self.post(e):
            k = it[0]
            if k == "arr":
                p = it[1]
                lay = it[2] if samezero(p.off) else Shifted(it[2], p.off)
                FACTS.setdefault(new.arrays[p.obj].base, []).append(ArrFact(lay, it[3], it[4], label))
            elif k == "cell":
                if isinstance(it[1], Ref): ex.store(new, ("cell", it[1].cell, it[1].path), it[2])
                elif isinstance(it[1], Ptr):
                    a = new.arrays[it[1].obj]; at = ex.place(a, it[1].off)
                    ex.bounds(st, it[1].obj, a, at, "write (%s)" % self.name)
                    if a.readonly and self.cellouts: ex.oblige(st, "frame", "%s writes the read-only %s" % (self.name, a.label), False)
                    new.arrays[it[1].obj] = a.write(at, it[2]); new.touched_arr.add(it[1].obj)
            elif k == "ret": ret = it[1]
            elif k == "prop":
                if isinstance(it[1], (z3.BoolRef,)): new.assume(it[1])
        return [(new, self.wrap(ret, new))]
    def wrap(self, ret, st): return ret
    def result(self, ex, e): return None

def samezero(x): return not isinstance(x, IP) and x == 0
class Shifted:
    def __init__(self, l, off): self.l = l; self.off = off; self.n = l.n; self.name = l.name
    def lin(self, *k): return self.off + self.l.lin(*k)
    def dom(self, *k): return self.l.dom(*k)
    def invert(self, st, idx): return self.l.invert(st, idx - self.off)

def assume_goal(st, g):
    if isinstance(g, P.Pos): g.assume(st); return
    if isinstance(g, (bool, z3.BoolRef)): st.assume(g)
    elif isinstance(g, ArrClaim):
        lay = g.layout if samezero(g.off) else Shifted(g.layout, g.off)
        FACTS.setdefault(st.arrays[g.obj].base, []).append(ArrFact(lay, g.region, g.val, ""))

def eqgoal(v, w):
    """v == w for doubles (with NaN), integers, booleans"""
    if isinstance(v, cexec.IteV): raise Unsupported("conditional result")
    if isinstance(v, (z3.BoolRef, bool)): v = iz(z3.If(zb(v), z3.IntVal(1), z3.IntVal(0))) if not isinstance(v, bool) else int(v)
    if isint(v) and isint(w): return cmp("==", v, w)
    if v is None or isinstance(v, cexec.Undef): return False
    n1, n2 = nanof(v), nanof(w)
    out = []
    if n1 is not False or n2 is not False:
        out.append(and_(implies(n1, n2), implies(n2, n1)))
        return out + [Guarded(not_(n2), RealGoal("eq", valof(v) if isinstance(valof(v), RT) else real(valof(v)), valof(w)))]
    return RealGoal("eq", real(valof(v)), real(valof(w)))
class Guarded:
    def __init__(self, c, g): self.c = c; self.g = g
_pc = P.prove_claim
def prove_claim(st, goal):
    if isinstance(goal, Guarded):
        if goal.c is False: return True, "syntactic", ""
        s = st.copy(); s.assume(goal.c)
        if P.infeasible(s): return True, "z3", ""
        return _pc(s, goal.g)
    return _pc(st, goal)
P.prove_claim = prove_claim

class Env:
    def __init__(self, **k): self.__dict__.update(k)

_tu = {}
INC = [REPO + "/eoxmagmod/eoxmagmod", REPO + "/eoxmagmod/eoxmagmod/include"]
def pyinc():
    import subprocess
    out = subprocess.run(["/opt/venv/bin/python", "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include())"], stdout=subprocess.PIPE).stdout.decode().split()
    return out
def tu(source="pymm.c"):
    if source not in _tu: _tu[source] = TU(REPO + "/eoxmagmod/eoxmagmod/" + source, INC + pyinc() + [REPO])
    return _tu[source]

def verify(names, res, budget=240, source="pymm.c", trace=False):
    """verify the named functions; fills the result record"""
    t0 = time.time()
    T = tu(source)
    log = Log()
    ex = Exec(T, REG, log)
    ex.deadline = t0 + budget; ex.vacuity = {}
    import loops
    for nme in names:
        c = REG[nme]
        if nme not in T.functions:
            log.add(nme, "extract", "the function exists in the source", False, "-", "function not found in %s" % source, 0)
            continue
        ex.quiet = 0; ex.depth = 0
        try:
            c.verify(ex)
        except Unsupported as e:
            log.add(nme, "reach", "within the verifier's reach", False, "-", "unsupported: %s" % e, 0)
        except RecursionError as e:
            log.add(nme, "reach", "within the verifier's reach", False, "-", "recursion limit", 0)
        except (KeyError, ValueError, TypeError, AttributeError, IndexError, AssertionError, z3.Z3Exception) as e:
            import traceback
            log.add(nme, "reach", "within the verifier's reach", False, "-", "%s: %s %s" % (type(e).__name__, e, traceback.format_exc(limit=-3)), 0)
            if trace: traceback.print_exc()
    res["obligations"] += log.items
    res["functions"] += [{"name": n, "digest": T.digest(n) if n in T.functions else None} for n in names]
    res["vacuity"].update(ex.vacuity)
    res.setdefault("inlined", []); res["inlined"] += sorted(ex.inlined)
    res["stats"] = dict(P.STATS)
    return log
