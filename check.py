#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current tree.

1. deductive layer (vc/): contracts on the real functions, verification conditions generated from
   /repo's current source, every obligation discharged by a solver back end;
2. bounded layer (bounded/): the same contracts executed on the rebuilt code for sampled inputs -
   the stand-in for the functions outside of the verifier's reach, and the source of failing inputs
   (replays) when an obligation fails.
Exit 0: held; 1: VIOLATION line printed; other: the check itself failed.
"""
import sys, os, json, time, subprocess, hashlib, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "bounded"))
import build as B, drive
VTPY = "/opt/veriftools/pyvenv/bin/python"

def known_findings():
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                out.append(json.loads(line[len("finding:"):]))
    return out

def run_deductive(prop, tier, seed, budget, box):
    t = time.time()
    try:
        path = os.path.join(HERE, "vc", "run.py")
        out = os.path.join(box["scratch"], "vc-%s.json" % prop)
        pr = subprocess.run([VTPY, path, prop, out, "--budget", str(budget), "--tier", tier, "--seed", str(seed)],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 60,
                            env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
        if pr.returncode or not os.path.exists(out):
            box["vc_error"] = pr.stderr.decode(errors="replace")[-3000:]
        else:
            box["vc"] = json.load(open(out))
    except subprocess.TimeoutExpired:
        box["vc_error"] = "time limit of the deductive layer exceeded"
    except Exception:
        box["vc_error"] = traceback.format_exc()
    box["vc_wall"] = time.time() - t

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    conf = json.load(open(os.path.join(HERE, "CHECKS.json")))[prop]
    asan = bool(conf.get("asan"))
    scale = conf.get("scale", 1.0) * (1 if tier == "quick" else 25)
    bbudget = 150 if tier == "quick" else 900
    dbudget = conf.get("vc_budget", 540) if tier == "quick" else 3000
    violation = None; searched = 0
    with B.Scratch(asan) as scratch:
        box = {"scratch": scratch}
        th = threading.Thread(target=run_deductive, args=(prop, tier, seed, dbudget, box))
        th.start()
        bounded = drive.run(scratch, prop, seed, tier, bbudget, scale, asan=asan)
        th.join()
        if bounded["violations"]:
            violation = bounded["violations"][0]
            violation["seed"] = seed
        vc = box.get("vc") or {"obligations": [], "functions": [], "assumptions": [], "error": box.get("vc_error", "?")}
        if box.get("vc_error") and not bounded["violations"]:
            print("deductive layer: " + box["vc_error"], file=sys.stderr)
        obl = vc["obligations"]
        failed = [o for o in obl if o["status"] != "proved"]
        if vc.get("error"):
            failed.append({"id": "%s:verifier" % prop, "function": "-", "kind": "engine", "status": "failed", "detail": vc["error"]})
        if not failed and len(obl) == 0 and conf.get("deductive", True):
            failed.append({"id": "%s:no-obligations" % prop, "function": "-", "kind": "vacuity", "status": "failed", "detail": "no obligation generated"})
        if failed and not violation:
            # an obligation failed: directed search for a failing input, on the same tree
            extra = 0; used = time.time() - t0
            while time.time() - t0 < (max(330, min(used + 120, 740)) if tier == "quick" else max(2400, used + 600)) and extra < (8 if tier == "quick" else 40) and not violation:
                extra += 1
                r = drive.run(scratch, prop, seed + 1000 + extra, tier, 60, scale * 3, asan=asan)
                searched += r["evaluations"]
                if r["violations"]:
                    violation = r["violations"][0]
                    violation["seed"] = seed + 1000 + extra
    # ---- report
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 0; lines = []
    known = [k for k in known_findings() if k["property"] == prop]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violation or failed:
        rec = {"property": prop, "tier": tier, "failed_obligations": failed, "violation": violation,
               "reproduce": None}
        if violation:
            rec["reproduce"] = "cd /verif && python3 bounded/drive.py %s --only %s --index %d --seed %d%s" % (
                prop, violation["contract"], violation["index"], violation["seed"], " --asan" if asan else "")
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, h))
        json.dump(rec, open(path, "w"), indent=1, default=str)
        for o in failed[:10]:
            print("FAILED OBLIGATION %s (%s): %s" % (o["id"], o["kind"], str(o.get("detail", ""))[:400]))
        if violation:
            print("FAILING INPUT %s[%d] seed %d: %s" % (violation["contract"], violation["index"], violation["seed"], violation["message"][:600]))
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if violation else " no-failing-input-found"))
        rc = 1
    level = conf["level"]
    cov = {
        "bounded": {"label": "bounded (sampled executions of the contracts on the rebuilt code; never counted as proved)",
                    "contracts": bounded["contracts"], "evaluations": bounded["evaluations"]},
        "functions_under_contract": vc.get("functions", []),
        "failed_obligations": failed[:20],
        "search_evaluations_after_failure": searched,
    }
    if level == "proof":
        cov.update({
            "obligations": len(obl), "discharged": sum(o["status"] == "proved" for o in obl),
            "checker_cmd": "python3 check.py %s %s" % (prop, tier),
            "trusted_base": vc.get("trusted_base", []),
            "by_kind": tally(obl, "kind"), "by_backend": tally(obl, "backend"), "by_function": tally(obl, "function"),
            "solver_time_s": round(sum(o.get("time", 0) for o in obl), 2),
            "vacuity_checks": vc.get("vacuity", {}),
            "extraction": vc.get("extraction", ""),
            "obligation_list": [o["id"] + " [" + o.get("backend", "") + "]" for o in obl][:4000],
        })
    else:
        cov.update({"evaluations": bounded["evaluations"], "distinct_nontrivial": bounded["nontrivial"],
                    "rule": "random and boundary inputs of each contract; non-trivial unless the case marks itself trivial",
                    "samples": [{"contract": c["name"], "cases": c["cases"], "what": c["doc"]} for c in bounded["contracts"]],
                    "explanation": conf.get("note", "")})
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": vc.get("assumptions", []), "violations": len(lines), "wall_s": round(time.time() - t0, 2)},
              open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d obligations, %d discharged; bounded: %d cases; %.1f s" % (
        prop, tier, len(obl), sum(o["status"] == "proved" for o in obl), bounded["evaluations"], time.time() - t0))
    for l in lines:
        print(l)
    return rc

def tally(obl, key):
    out = {}
    for o in obl:
        out[o.get(key, "?")] = out.get(o.get(key, "?"), 0) + 1
    return out

if __name__ == "__main__":
    sys.exit(main())
