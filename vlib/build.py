"""Builds of /repo's current sources together with the harnesses (outside /repo)."""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SLAT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
LIB = ["functions", "relationships", "maq", "fragility", "lognormaldist", "loss_functions",
       "comp_group", "caching", "structure", "context"]
LIBS = ["-lboost_log", "-lboost_thread", "-lboost_system", "-lpthread", "-lboost_filesystem",
        "-lgsl", "-lgslcblas", "-lm", "-fopenmp"]
BASE = ["-std=gnu++11", "-fopenmp", "-DBOOST_ALL_DYN_LINK", "-fPIC", "-include", "functional",
        "-I" + SRC, "-w"]
VARIANTS = {
    "plain": ["-g1", "-O2"],
    "asan": ["-g1", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # memory accesses call our own scheduler (harness/sched.cpp), not libtsan
    "sched": ["-g1", "-O1", "-fsanitize=thread"],
}
LINK = {"asan": ["-fsanitize=address"]}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _hash(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(_read(f))
    return h.hexdigest()[:16]


def _run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def headers():
    return glob.glob(SRC + "/*.h")


def prune(keep):
    """forget old builds (disk space)"""
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)] if os.path.isdir(BUILD) else []
    ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def _compile(jobs):
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(_run, j) for j in jobs]:
            f.result()


def program(name, sources, variant="plain", extra=(), libs=LIB, nosched=()):
    """Compile the library's current sources and the given harness files into one program."""
    extra = list(extra)
    files = [SRC + "/%s.cpp" % l for l in libs] + headers() + [os.path.join(VERIF, "harness", s) for s in list(sources) + list(nosched)] \
        + glob.glob(VERIF + "/harness/*.h")
    d = os.path.join(BUILD, "%s-%s-%s" % (name, variant, _hash(files, (VARIANTS[variant], extra, libs, BASE, list(sources), list(nosched)))))
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        os.utime(d)
        return exe
    prune(24)
    own = os.path.join(d, "objects-%d" % os.getpid())     # another check may be building the same
    os.makedirs(own, exist_ok=True)
    objs, jobs = [], []
    srcs = [SRC + "/%s.cpp" % l for l in libs] + [os.path.join(VERIF, "harness", s) for s in sources]
    for s in srcs:
        o = os.path.join(own, os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append(["g++"] + BASE + VARIANTS[variant] + extra + ["-c", s, "-o", o])
    for s in nosched:
        s = os.path.join(VERIF, "harness", s)
        o = os.path.join(own, os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append(["g++"] + BASE + ["-g1", "-O1"] + extra + ["-c", s, "-o", o])
    _compile(jobs)
    tmp = exe + ".tmp%d" % os.getpid()
    _run(["g++", "-o", tmp] + objs + LINK.get(variant, []) + LIBS)
    os.rename(tmp, exe)
    shutil.rmtree(own, ignore_errors=True)
    return exe


def setup():
    """everything the checks use, so that each finds it built when /repo has not changed since"""
    program("slatdrv", ["slatdrv.cpp"])
    program("slatdrv", ["slatdrv.cpp"], variant="asan")
    program("cachedrv", ["cachedrv.cpp"], variant="sched", libs=["caching"], nosched=["sched.cpp"])
    program("intdrv", ["intdrv.cpp"], variant="sched", libs=["maq", "context"], nosched=["sched.cpp"])
    program("ctxdrv", ["ctxdrv.cpp"], variant="sched", libs=["context"], nosched=["sched.cpp"])
    program("slatdrv", ["slatdrv.cpp"], variant="sched", extra=["-DWITH_SCHED"], nosched=["sched.cpp"])
    program("slatdrv", ["slatdrv.cpp"], variant="sched", extra=["-DWITH_SCHED", "-O0"], nosched=["sched.cpp"])
    from . import pybuild
    pybuild.paths()
