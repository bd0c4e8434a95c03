"""Driver of the bounded layer (any python3): builds, runs the runner in a subprocess, survives crashes."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

def asan_env(env):
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    ubs = subprocess.run(["gcc", "-print-file-name=libubsan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    env = dict(env)
    env["LD_PRELOAD"] = lib + ":" + ubs
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=78"
    env["PYTHONMALLOC"] = "malloc"
    return env

def run(scratch, prop, seed, tier, budget, scale=1.0, only=None, index=None, asan=False, all_=False):
    out = tempfile.mktemp(prefix="out-", suffix=".json", dir=scratch)
    status = tempfile.mktemp(prefix="status-", dir=scratch)
    env = B.env_for(scratch)
    if asan:
        env = asan_env(env)
    args = dict(prop=prop, seed=seed, tier=tier, budget=budget, scale=scale, only=only, index=index, asan=asan,
                scratch=scratch, out=out, status=status, all=all_)
    try:
        pr = subprocess.run([B.PY, os.path.join(HERE, "runner.py"), json.dumps(args)], env=env, cwd=scratch,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 120)
        rc, err = pr.returncode, pr.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, err = "timeout", (e.stderr or b"").decode(errors="replace")
    if rc == 0 and os.path.exists(out):
        return json.load(open(out))
    try:
        name, i = open(status).read().split()[:2]
    except Exception:
        raise RuntimeError("bounded runner failed before the first case (rc %s): %s" % (rc, err[-3000:]))
    if rc == 1 and "Traceback" in err and "Error" in err:     # the harness itself failed
        raise RuntimeError("bounded runner failed: " + err[-3000:])
    what = "no termination" if rc == "timeout" else "process terminated (code %s)" % rc
    import re
    m = re.findall(r"(?:ERROR: AddressSanitizer: .*|runtime error: .*)", err)
    if m:
        what += " " + "; ".join(m[:2])
    return {"contracts": [], "evaluations": int(i) + 1, "nontrivial": 0,
            "violations": [{"contract": name, "index": int(i), "message": what, "notes": {"stderr": err[-1500:]}}]}

if __name__ == "__main__":
    import time, argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="+"); ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only"); ap.add_argument("--index", type=int); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=300); ap.add_argument("--asan", action="store_true"); ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    with B.Scratch(a.asan) as s:
        for p in a.props:
            t = time.time()
            r = run(s, p, a.seed, "quick", a.budget, a.scale, a.only, a.index, a.asan, a.all)
            print(p, r["evaluations"], "cases", round(time.time() - t, 1), "s", [(c["name"], c["cases"], c["wall_s"]) for c in r["contracts"]])
            for v in r["violations"]:
                print("  VIOLATION", v["contract"], v["index"], v["message"][:1500])
                print("     ", json.dumps(v["notes"])[:1500])
