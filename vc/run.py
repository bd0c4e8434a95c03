"""run.py PROP OUT.json: discharge the obligations of one property (deductive layer), one process per function."""
import sys, os, json, time, importlib, traceback, argparse, multiprocessing as mp, multiprocessing.connection
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

def work(job):
    kind, mod, src, fn, budget = job
    res = {"obligations": [], "functions": [], "vacuity": {}, "inlined": []}
    t0 = time.time()
    try:
        if kind == "c":
            import contract
            for m in mod: importlib.import_module(m)
            fn, _, part = fn.partition("@")
            if part: contract.REG[fn].part = tuple(map(int, part.split("/")))
            contract.verify([fn], res, budget, source=src)
        else:
            getattr(importlib.import_module(mod), fn)(res, budget)
    except BaseException as e:
        if mod and isinstance(mod, str) and mod.startswith("py_"):      # the module does not load in the symbolic interpreter
            res["functions"].append({"name": "%s.%s" % (mod, fn), "kind": "python", "status": "out of reach of the verifier: not proved, left to the bounded layer", "why": traceback.format_exc()[-600:]})
        else: res["obligations"].append({"id": "%s:engine" % fn, "function": fn, "kind": "engine", "status": "failed", "backend": "-", "detail": traceback.format_exc()[-1500:], "time": 0})
    res["wall"] = time.time() - t0
    return json.loads(json.dumps(res, default=str))

def child(job, attempt, conn):
    if attempt:
        import z3
        z3.set_param("smt.random_seed", 7 * attempt); z3.set_param("sat.random_seed", 7 * attempt)
    conn.send(work(job)); conn.close()
def schedule(jobs, limit, budget, workers=8):
    """one process per job; a job beyond the limit (a solver call which does not end) is started anew with another seed"""
    t0 = time.time(); todo = [(i, 0) for i in range(len(jobs))]; running = {}; out = [None] * len(jobs)
    while todo or running:
        while todo and len(running) < workers:
            i, n = todo.pop(0); r, w = mp.Pipe(False); p = mp.Process(target=child, args=(jobs[i], n, w)); p.start(); w.close()
            running[i] = (p, r, time.time(), n)
        for i, (p, r, t, n) in list(running.items()):
            if r.poll(0):
                try: out[i] = r.recv()
                except EOFError: out[i] = None
            elif not p.is_alive() and not r.poll(0): out[i] = None
            elif time.time() - t > limit or time.time() - t0 > budget:
                p.kill(); p.join(); r.close(); del running[i]
                if n == 0 and time.time() - t0 < 0.8 * budget: todo.insert(0, (i, 1))
                else: out[i] = broken(jobs[i], "time limit")
                continue
            else: continue
            p.join(); r.close(); del running[i]
            if out[i] is None:
                if n == 0: todo.insert(0, (i, 1))
                else: out[i] = broken(jobs[i], "the process of the verifier ended")
        mp.connection.wait([r for _, r, _, _ in running.values()], 0.2)
    return out
def broken(job, why):
    kind, mod, src, fn, _ = job
    res = {"obligations": [], "functions": [], "vacuity": {}, "inlined": [], "wall": 0}
    if mod and isinstance(mod, str) and mod.startswith("py_"): res["functions"].append({"name": "%s.%s" % (mod, fn), "kind": "python", "status": "out of reach of the verifier: not proved, left to the bounded layer", "why": why})
    else: res["obligations"].append({"id": "%s:engine" % fn, "function": fn, "kind": "engine", "status": "failed", "backend": "-", "detail": why, "time": 0})
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("out")
    ap.add_argument("--budget", type=float, default=240); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args(); os.environ["VERIF_TIER"] = a.tier
    res = {"obligations": [], "functions": [], "assumptions": [], "trusted_base": [], "vacuity": {}, "inlined": [], "extraction": "", "error": None}
    import plan
    jobs = []
    mods = [m for m, _, _ in plan.C.get(a.prop, [])]
    for m, src, fns in plan.C.get(a.prop, []):
        jobs += [("c", mods, src, f if n == 1 else "%s@%d/%d" % (f, k, n), a.budget) for f in fns for n in (plan.PARTS.get(f, 1),) for k in range(n)]
    jobs += [("py", m, None, f, a.budget) for m, f in plan.PY.get(a.prop, [])]
    if jobs:
        res["assumptions"] = (plan.ARITH if plan.C.get(a.prop) else []) + plan.NOTES.get(a.prop, [])
        res["trusted_base"] = plan.TRUST
        res["extraction"] = plan.EXTRACTION
        try:
            if plan.C.get(a.prop):
                import contract
                for s in {s for _, s, _ in plan.C[a.prop]}: contract.tu(s)
            rs = schedule(jobs, 0.55 * a.budget, a.budget)
            for r in rs:
                res["obligations"] += r["obligations"]; res["functions"] += [f for f in r["functions"] if f not in res["functions"]]
                res["vacuity"].update(r["vacuity"]); res["inlined"] += r["inlined"]
            if a.prop in plan.KEEP: res["obligations"] = [o for o in res["obligations"] if plan.KEEP[a.prop](o)]
            res["inlined"] = sorted(set(res["inlined"]))
            res["walls"] = {j[3]: round(r["wall"], 1) for j, r in zip(jobs, rs)}
        except Exception:
            res["error"] = traceback.format_exc()[-3000:]
    json.dump(res, open(a.out, "w"), default=str)

main()
