"""P27: DetFunctions.tla against functions.cpp."""
from vlib import tlc, build
from vlib.terms import evaluate
from vlib.replay import Want, f, fs, judge


def fr(r):
    return r[0] / r[1]


def definition(s):
    if s["k"] == "plc":
        return "plc %s %s" % (f(fr(s["a"])), f(fr(s["b"])))
    if s["k"] == "nlh":
        return "nlh %s %s %s" % (f(fr(s["a"])), f(fr(s["b"])), f(fr(s["c"])))
    return "%s %s %s" % (s["k"], fs(map(fr, s["xs"])), fs(map(fr, s["ys"])))


def steps(h):
    for s in h:
        if s["op"] == "def":
            yield "det d%d %s" % (s["i"], definition(s)), Want()
            continue
        want = [evaluate(t) for t in s["want"]]
        x = fs(map(evaluate, s["x"]))
        if s["op"] == "ask":
            yield "val d%d value %s" % (s["i"], x), Want(want, what="value of d%d" % s["i"], tol=1e-9, absol=1e-12)
        else:
            yield "ptvals d%d value 4 %s" % (s["i"], x), Want(want * 4, what="values of d%d, from 4 threads" % s["i"], tol=1e-9, absol=1e-12)


def stress(check, exe, hs, n):
    """many threads at one table, at all its segments"""
    bs = []
    for h in hs:
        for s in h:
            if s["op"] == "def" and s["k"] in ("lin", "loglog") and len(s["xs"]) >= 5:
                bs.append(s)
    bs = sorted(bs, key=lambda s: -len(s["xs"]))[:n]

    def st(s):
        yield "det d1 %s" % definition(s), Want()
        xs, ys = [fr(x) for x in s["xs"]], [fr(y) for y in s["ys"]]
        yield "stress d1 value 8 %d %s" % (check.pick(20000, 200000), fs(xs)), Want(ys * 8, what="tabulated values, asked for over and over from 8 threads", tol=1e-9)
    judge(check, exe, bs, st, "tables under concurrent use", procs=2)


def run(check):
    exe = build.program("slatdrv", ["slatdrv.cpp"])
    check.tlc(tlc.check("DetFunctions", tlc.config(dict(Depth=0, MaxPoints=3), spec="SpecSmall", invariants=["SmallOk"]), check.work))
    per, n = tlc.simulate("DetFunctions", tlc.config(dict(Depth=30, MaxPoints=9), invariants=["Emit"]), check.work, check.pick(60, 1500), 60, check.seed)
    check.add("states", n)
    check.add("transitions", n)
    hs = [h for p in per for h in p]
    judge(check, exe, hs, steps, "query histories")
    stress(check, exe, hs, check.pick(12, 60))
    check.assumptions += ["tables have strictly increasing arguments (positive entries for log-log ones)", "values are compared with a relative tolerance of 1e-9"]
