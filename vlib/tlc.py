"""Runs TLC: exhaustive checks of the specifications, behaviours for replay, and
acceptance of recorded traces."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")


class TLCError(Exception):
    pass


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = self.distinct = 0
        if m:
            self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"number of states generated: ([\d,]+)", out)
            if m:
                self.generated = self.distinct = int(m[-1].replace(",", ""))
        self.violated = re.findall(r"Error: Invariant (\w+) is violated", out) + \
            re.findall(r"Error: Action property (\w+) is violated", out) + \
            (["temporal"] if "Temporal properties were violated" in out else []) + \
            (["Deadlock"] if "Error: Deadlock reached" in out else [])
        self.ok = "Error:" not in out and rc == 0

    def lines(self, mark="@@"):
        """what the specification printed with PrintT(mark \\o ToJson(x))"""
        r = []
        for l in self.out.splitlines():
            if l.startswith('"' + mark):
                r.append(json.loads(json.loads(l)[len(mark):]))
        return r


def value(v):
    """a Python value as a TLC configuration constant"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("\\") else '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(value(x) for x in v))
    raise TypeError(v)


def config(constants, spec="Spec", invariants=(), properties=(), constraints=(), extra=(), action_constraints=(), symmetry=None, view=None, postcondition=None):
    l = ["SPECIFICATION " + spec]
    if constants:
        l.append("CONSTANTS")
        for k, v in constants.items():
            l.append(" %s %s" % (k, v[1:] if isinstance(v, str) and v.startswith("\\<-") else "= " + value(v)) if not (isinstance(v, str) and v.startswith("\\<-"))
                     else " %s <- %s" % (k, v[3:].strip()))
    for name, xs in (("INVARIANTS", invariants), ("PROPERTIES", properties), ("CONSTRAINTS", constraints), ("ACTION_CONSTRAINTS", action_constraints)):
        if xs:
            l.append(name + " " + " ".join(xs))
    if symmetry:
        l.append("SYMMETRY " + symmetry)
    if view:
        l.append("VIEW " + view)
    if postcondition:
        l.append("POSTCONDITION " + postcondition)
    l += list(extra)
    return "\n".join(l) + "\n"


def run(module, cfg, work, args=(), workers=8, timeout=600, deadlock=False, env=None, mem="4g", module_text=None):
    """one TLC run; returns its Result, whatever the outcome; raises TLCError if TLC did not finish"""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    if module_text:
        with open(os.path.join(d, module + ".tla"), "w") as f:
            f.write(module_text)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xmx" + mem, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-cp", classpath(), "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-config", "run.cfg"]
    if not deadlock:
        cmd.append("-deadlock")
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd + list(args) + [module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        out = r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as ex:
        shutil.rmtree(d, ignore_errors=True)
        raise TLCError("TLC timed out on %s" % module)
    shutil.rmtree(d, ignore_errors=True)
    res = Result(out, r.returncode)
    if ("Finished in" not in out and "Finished computing" not in out and "No error has been found" not in out) or "Parsing or semantic analysis failed" in out \
            or "TLC threw an unexpected exception" in out or "Error: Evaluating" in out or "Error: Attempted" in out or "Error: The " in out and not res.violated and "invariant" not in out.lower():
        raise TLCError("TLC failed on %s:\n%s" % (module, tail(out)))
    return res


def tail(out, n=3500):
    i = out.find("Semantic errors:")
    i = i if i >= 0 else out.find("Error:")
    return out[i:i + n] if i >= 0 else out[-n:]


_cp = None
def classpath():
    global _cp
    if _cp is None:
        t = open(shutil.which("tlc")).read()
        m = re.search(r"-cp\s+[\"']?([^\s\"']+)", t)
        _cp = m.group(1) if m else "/opt/veriftools/tla/tla2tools.jar"
    return _cp


def check(module, cfg, work, **kw):
    """exhaustive check that must succeed"""
    r = run(module, cfg, work, **kw)
    if not r.ok:
        raise TLCError("specification %s: %s" % (module, tail(r.out)))
    return r


def simulate(module, cfg, work, num, depth, seed, procs=8, timeout=600):
    """behaviours printed by the specification, from `procs` independent simulations"""
    def one(i):
        return run(module, cfg, work, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed * 1000 + i)], workers=1, timeout=timeout, mem="1500m")
    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    out, n = [], 0
    for r in rs:
        if not r.ok:
            raise TLCError("simulation of %s: %s" % (module, tail(r.out)))
        n += r.generated
        out.append(r.lines())
    return out, n
