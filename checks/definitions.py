"""P29: Definitions.tla against the results of the whole library."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import tlc, build
from vlib.terms import evaluate
from vlib.replay import Want, f, judge
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fr(r):
    return f(r[0] / r[1])


def dist(d):
    return "%s %s %s" % (d["k"], fr(d["a"]), fr(d["b"]))


def model(m):
    h = m["h"]
    yield ("det h %s %s %s" % (h["k"], fr(h["a"]), fr(h["b"])) + (" " + fr(h["c"]) if h["k"] == "nlh" else "")) if h["k"] != "loglog" else \
        "det h loglog %d %s %d %s" % (len(h["xs"]), " ".join(map(fr, h["xs"])), len(h["ys"]), " ".join(map(fr, h["ys"])))
    yield "im i h"
    for w in ("col", "dem"):
        for d in m[w]:
            yield "%s i %s" % (w, dist(d))
    for i, e in enumerate(m["edp"], 1):
        for j, p in enumerate(e):
            for k in "ms":
                yield "det %s%d%d plc %s %s" % (k, i, j, fr(p[k]["a"]), fr(p[k]["b"]))
            yield "prob p%d%d m%d%d %s s%d%d %s" % (i, j, i, j, p["loc"], i, j, p["sp"])
        yield "edp e%d i p%d0" % (i, i) if len(e) == 1 else "cedp e%d i p%d0 p%d1" % (i, i, i)
    for i, s in enumerate(m["frag"], 1):
        yield "frag f%d %d %s" % (i, len(s), " ".join("med_sdln %s %s" % (fr(x["med"]), fr(x["sd"])) for x in s))
    for i, l in enumerate(m["loss"], 1):
        yield "%s l%d %d %s" % (l["k"], i, len(l["s"]), " ".join(dist(x) if l["k"] == "sloss" else "%d %d %s %s %s" % (x["min"], x["max"], fr(x["hi"]), fr(x["lo"]), fr(x["disp"])) for x in l["s"]))
    for i, g in enumerate(m["groups"], 1):
        yield "cg c%d e%d f%d l%d l%d %d %s %s" % (i, g["e"], g["f"], g["cost"], g["delay"], g["n"], fr(g["cadj"]), fr(g["dadj"]))
    yield "st s"
    yield "rebuild s " + dist(m["reb"])
    yield "demo s " + dist(m["dmo"])


def values(behaviours, procs=8):
    """the values of all expressions, by numpy (vlib/integrals.py), one process per part"""
    asks = [s[k] for h in behaviours for s in h for k in ("t", "found") if k in s]

    def part(ts):
        p = subprocess.run(["python3-vt", os.path.join(HERE, "vlib", "integrals.py")], input="".join(json.dumps(t) + "\n" for t in ts),
                           stdout=subprocess.PIPE, text=True, check=True, env=dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"))
        return json.loads(p.stdout)
    with ThreadPoolExecutor(procs) as ex:
        parts = list(ex.map(part, [asks[i::procs] for i in range(procs)]))
    n = [0] * procs
    k = 0
    for h in behaviours:
        for s in h:
            for a, b in (("t", "v"), ("found", "vfound")):
                if a in s:
                    s[b] = parts[k % procs][k // procs]
                    k += 1


# demolition sets in with a kink
TOL = {"drate": 3e-2}


def either(right, found, report):
    """the answer of a known finding is reported as such, not as a violation"""
    def bad(got):
        why = right.bad(got)
        if why and not found.bad(got):
            report()
            return None
        return why
    return Want(what=right.what, check=bad)


def steps(h, report=lambda: None):
    for s in h:
        o = s["op"]
        if o == "model":
            yield "settings 1e-6 20000 20000 %d" % s["m"]["method"], Want()
            for c in model(s["m"]):
                yield c, Want(text="ok")
        elif o in ("col", "dem"):
            yield ("%s i %s" % (o, dist(s["d"][0])) if s["d"] else o + "none i"), Want(text="ok")
        elif o in ("rebuild", "demo"):
            yield "%s s %s" % (o, dist(s["d"])), Want(text="ok")
        elif o == "add":
            yield "add s c%d" % s["g"], Want(text="ok")
        else:
            want = [Want([v], what="%s of %s at %s" % (s["w"], s["o"], f(evaluate(s["x"]))), tol=TOL.get(s["w"], 4e-3), absol=1e-9) for v in [s["v"]] + ([s["vfound"]] if "vfound" in s and s["n"] > 1 else [])]
            yield "quant %s %s %s" % (s["o"], s["w"], f(evaluate(s["x"]))), either(want[0], want[1], report) if len(want) > 1 else want[0]


def run(check):
    exe = build.program("slatdrv", ["slatdrv.cpp"])
    check.tlc(tlc.check("Definitions", tlc.config(dict(Depth=0), spec="SpecSmall", invariants=["SmallOk"]), check.work))
    per, n = tlc.simulate("Definitions", tlc.config(dict(Depth=40), invariants=["Emit"]), check.work, check.pick(12, 300), 80, check.seed)
    check.add("states", n)
    check.add("transitions", n)
    hs = [h for p in per for h in p]
    values(hs)
    met = []
    judge(check, exe, hs, lambda h: steps(h, lambda: met.append(1)), "models and their results")
    if met:
        check.violation("the deviation of the delays of several components", {"times": len(met)}, key="deviation-of-several-delays")
    check.add("known_findings_met", len(met))
    check.add("results_compared", sum(1 for h in hs for s in h if s["op"] == "ask"))
    check.assumptions += ["integrations with a tolerance of 1e-6 and 20000 evaluations; results are compared with a relative tolerance of 4e-3 (demolition rates 3e-2) with sums over logarithmic grids, extrapolated",
                          "compound demands have equal deviations on both sides",
                          "hazards: power laws, hyperbolic laws and log-log tables"]
