"""Runs the bounded contracts of one property (inside the interpreter of the code under test)."""
import sys, os, time, json, importlib, warnings, mmap, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import numpy as np
import core

def main():
    a = json.loads(sys.argv[1])
    prop, seed, tier = a["prop"], a["seed"], a["tier"]
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import eoxmagmod
    if a.get("scratch"):
        assert eoxmagmod.__file__.startswith(a["scratch"]), eoxmagmod.__file__
    importlib.import_module(prop.lower())
    contracts = [c for c in core.CONTRACTS[prop] if c[3]["asan"] == bool(a.get("asan"))]
    if a.get("only"):
        contracts = [c for c in contracts if c[0] == a["only"]]
    status = open(a["status"], "wb+")
    res = {"contracts": [], "violations": [], "evaluations": 0, "nontrivial": 0}
    deadline = time.time() + a["budget"]
    t0 = time.time()
    def mark(name, i):
        status.seek(0); status.write(("%s %d\n" % (name, i)).ljust(100).encode()); status.flush()
    if a.get("index") is not None:
        name, count, f, o = contracts[0]
        mark(name, a["index"])
        msg, c = core.run_case(prop, name, f, seed, a["index"], tier)
        res["evaluations"] = 1
        if msg:
            res["violations"].append({"contract": name, "index": a["index"], "message": msg, "notes": core.jsonable(c.notes)})
        json.dump(res, open(a["out"], "w"))
        return
    total = sum(c[1] for c in contracts) or 1
    for name, count, f, o in contracts:
        n = int(count * a.get("scale", 1.0)) or 1
        t1 = time.time(); done = nt = 0
        for i in range(n):
            if time.time() > deadline:
                break
            mark(name, i)
            msg, c = core.run_case(prop, name, f, seed, i, tier)
            done += 1; nt += bool(c.nontrivial)
            if msg:
                res["violations"].append({"contract": name, "index": i, "message": msg, "notes": core.jsonable(c.notes)})
                break
        res["contracts"].append({"name": name, "cases": done, "planned": n, "wall_s": round(time.time() - t1, 2), "doc": (f.__doc__ or "").strip()})
        res["evaluations"] += done; res["nontrivial"] += nt
        if res["violations"] and not a.get("all"):
            break
    res["wall_s"] = round(time.time() - t0, 2)
    json.dump(res, open(a["out"], "w"))

main()
