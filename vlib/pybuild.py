"""Builds the scripting layer (pyslatcore with SWIG, the parser with ANTLR) from /repo's current sources, outside /repo."""
import glob, os, shutil, subprocess
from .build import SRC, BUILD, BASE, LIB, LIBS, _hash, _run, _compile, headers, prune
SWIG = "-python -c++ -py3 -modern -fastdispatch -fvirtual -noproxydel -fastproxy -fastunpack -fastquery -modernargs -castmode".split()


def _into(d, make):
    if not os.path.exists(d):
        prune(24)
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        make(tmp)
        os.rename(tmp, d)
    os.utime(d)
    return d


def native():
    """a directory with pyslatcore.py and _pyslatcore.so"""
    cpp = [SRC + "/%s.cpp" % l for l in LIB + ["pyslatcore"]]
    swig = SRC + "/pyslatcore.i"

    def make(d):
        inc = subprocess.run(["pkg-config", "--cflags", "python3"], stdout=subprocess.PIPE, check=True).stdout.decode().split()
        jobs = [["g++"] + BASE + ["-g1", "-O2", "-c", s, "-o", os.path.join(d, os.path.basename(s) + ".o")] for s in cpp]
        w = os.path.join(d, "wrap.cpp")
        _run(["/usr/bin/swig"] + SWIG + ["-outdir", d, "-o", w, swig])
        jobs.insert(0, ["g++"] + BASE + inc + ["-O0", "-c", w, "-o", w + ".o"])
        _compile(jobs)
        objs = [j[-1] for j in jobs]
        _run(["g++", "-shared", "-o", os.path.join(d, "_pyslatcore.so")] + objs + LIBS)
        for o in objs + [w]:
            os.unlink(o)
    return _into(os.path.join(BUILD, "pycore-" + _hash(cpp + headers() + [swig], ("native", SWIG, BASE))), make)


def scripts():
    """a directory with pyslat.py, SlatInterpreter.py and the parser"""
    g4 = [SRC + "/slatLexer.g4", SRC + "/slatParser.g4"]
    py = [SRC + "/pyslat.py", SRC + "/SlatInterpreter.py"]

    def make(d):
        for s in g4:
            shutil.copy(s, d)
        for s in ("slatLexer.g4", "slatParser.g4"):
            _run(["/usr/bin/antlr4", "-Dlanguage=Python3", "-lib", d, s], cwd=d)
        for s in py:
            shutil.copy(s, d)
    return _into(os.path.join(BUILD, "pyscripts-" + _hash(g4 + py, "scripts")), make)


def paths():
    """the directories to be on PYTHONPATH"""
    return [native(), scripts()]
