"""Rebuild the code under test from /repo's current working tree into a scratch directory.

Nothing is written in /repo.  build(asan=True) gives an AddressSanitizer + UBSan build of the native
extensions.
"""
import os, shutil, subprocess, sys, tempfile, glob, atexit, signal

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
EXTS = ("_pymm", "_pyqd", "_pysunpos", "_pytimeconv")

class BuildError(Exception):
    pass

def _ignore(dirpath, names):
    out = []
    for n in names:
        if n.endswith((".so", ".o", ".mod", ".pyc")) or n in ("build", "__pycache__", "config.log", "config.status"):
            out.append(n)
    return out

def env_for(scratch):
    env = dict(os.environ)
    env.update({
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": scratch,
        "SPACEPY": scratch + "/spacepy", "MPLBACKEND": "Agg",
        "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "CPATH": scratch, "LIBRARY_PATH": scratch + "/qdipole", "LD_LIBRARY_PATH": scratch + "/qdipole",
        "PYTHONPATH": scratch + "/eoxmagmod",
    })
    return env

def build(scratch, asan=False):
    """Build into the given (existing, empty) directory; returns it."""
    src = os.path.join(REPO, "eoxmagmod", "eoxmagmod")
    dst = os.path.join(scratch, "eoxmagmod", "eoxmagmod")
    shutil.copytree(src, dst, ignore=_ignore)
    if os.path.isdir("/opt/vp/spacepy"):      # spacepy rewrites its configuration: keep that in the scratch directory
        shutil.copytree("/opt/vp/spacepy", os.path.join(scratch, "spacepy"))
    qd = os.path.join(scratch, "qdipole")
    shutil.copytree(os.path.join(REPO, "qdipole"), qd, ignore=_ignore)
    for f in ("Makefile", "qdipole_conf.h", "libqdipole.so"):
        p = os.path.join(qd, f)
        if os.path.exists(p):
            os.remove(p)
    env = env_for(scratch)
    info = subprocess.run([PY, "-c",
        "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"],
        env={**env, "PYTHONPATH": ""}, stdout=subprocess.PIPE, check=True).stdout.decode().split("\n")
    inc_py, inc_np, suffix = info[:3]
    procs = []
    def start(cmd, cwd, name):
        procs.append((name, subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(cmd, str))))
    start("bash ./configure >/dev/null && make libqdipole.so", qd, "qdipole")
    flags = ["-O1", "-g", "-fsanitize=address,bounds,object-size,null", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
             ] if asan else ["-O3", "-DNDEBUG", "-Wall", "-fno-strict-overflow", "-fwrapv"]
    def cc(name, extra=()):
        return ["gcc", "-shared", "-fPIC", *flags, "-w", "-I" + dst, "-I" + dst + "/include", "-I" + inc_py, "-I" + inc_np,
                "-I" + scratch, os.path.join(dst, name[1:] + ".c"), "-o", os.path.join(dst, name + suffix), "-lm", *extra]
    for name in EXTS:
        if name != "_pyqd":
            start(cc(name), dst, name)
    def finish():
        errs = []
        for name, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                errs.append("%s: %s" % (name, out.decode(errors="replace")[-2000:]))
        procs.clear()
        if errs:
            raise BuildError("\n".join(errs))
    finish()
    start(cc("_pyqd", ["-L" + qd, "-lqdipole", "-Wl,-rpath," + qd]), dst, "_pyqd")
    finish()
    return scratch

class Scratch:
    """Context manager: scratch directory removed on exit."""
    def __init__(self, asan=False):
        self.asan = asan
    def __enter__(self):
        base = os.environ.get("VERIF_SCRATCH", "/tmp")
        self.path = tempfile.mkdtemp(prefix="verif-build-", dir=base)
        atexit.register(shutil.rmtree, self.path, True)
        try:
            build(self.path, self.asan)
        except BaseException:
            shutil.rmtree(self.path, True)
            raise
        return self.path
    def __exit__(self, *a):
        shutil.rmtree(self.path, True)

if __name__ == "__main__":
    import time
    t = time.time()
    with Scratch("asan" in sys.argv) as s:
        print(time.time() - t)
        print(os.listdir(s + "/eoxmagmod/eoxmagmod"))
        e = env_for(s)
        if "asan" in sys.argv:
            e["LD_PRELOAD"] = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
            e["ASAN_OPTIONS"] = "detect_leaks=0"
        subprocess.run([PY, "-c", "import eoxmagmod,sys;print(eoxmagmod.__file__, eoxmagmod._pymm.__file__);print(eoxmagmod.legendre(30.,2), eoxmagmod.eval_subsol(100.))"], env=e, cwd=s)
