"""P18: Loss.tla against loss_functions.cpp and the groups of comp_group.cpp."""
import math
from vlib import tlc, build
from vlib.terms import evaluate
from vlib.replay import Want, f, fs, judge


def fr(r):
    return r[0] / r[1]


def outcome(lets):
    env = {}
    for k, t in lets:
        env[k] = evaluate(t, env)
    return env["mean"], env["sg"]


def steps(h):
    e = evaluate
    prelude = False
    defined = {}
    for s in h:
        o = s["op"]
        if o == "loss":
            if s["k"] == "sloss":
                c = "sloss l%d %d %s" % (s["i"], len(s["s"]), " ".join("%s %s %s" % (x["k"], f(fr(x["a"])), f(fr(x["b"]))) for x in s["s"]))
            else:
                c = "bloss l%d %d %s" % (s["i"], len(s["s"]), " ".join("%d %d %s %s %s" % (x["min"], x["max"], f(fr(x["hi"])), f(fr(x["lo"])), f(fr(x["disp"]))) for x in s["s"]))
            if s["ok"]:
                defined["l%d" % s["i"]] = c
                yield c, Want(text="ok")
                yield "nstates l%d" % s["i"], Want([len(s["s"])])
            else:
                yield c.replace("l%d " % s["i"], "lx ", 1), Want(exc=True, what="a loss function needs a damage state")
        elif o == "ask":
            w = fs(map(e, s["w"]))
            m, sg = outcome(s["d"])
            if m > 1e-12:
                mom = [m, sg, m * math.sqrt(math.exp(sg ** 2) - 1), math.log(m) - sg ** 2 / 2, m / math.exp(sg ** 2 / 2)]
            else:
                mom = [m, None, 0.0 if m == 0 else None, None, None]
            yield "loss l%d %d %s %s" % (s["i"], s["n"], f(e(s["adj"])), w), Want(mom, what="loss of l%d (%s) for %d components" % (s["i"], defined["l%d" % s["i"]], s["n"]), tol=1e-7)
        elif o == "mismatch":
            yield "loss l%d %d 1 %s" % (s["i"], s["n"], fs(map(e, s["w"]))), Want(exc=True, what="as many probabilities as states")
        elif o == "frag":
            if not prelude:
                prelude = True
                yield "det h plc 0.001 -2.5", Want()
                yield "det m plc 0.05 1.2", Want()
                yield "det s plc 0.4 0", Want()
                yield "prob p m mean s sdln", Want()
                yield "im i h", Want()
                yield "edp e i p", Want()
            yield "frag f%d %d %s" % (s["i"], len(s["s"]), " ".join("med_sdln %s %s" % (f(e(a)), f(e(b))) for a, b in s["s"])), Want(text="ok")
        elif o == "group":
            l = lambda k: "l%d" % k if k else "-"
            yield "cg g%d e f%d %s %s %d %s %s" % (s["i"], s["f"], l(s["cost"]), l(s["delay"]), s["n"], f(e(s["cadj"])), f(e(s["dadj"]))), Want(text="ok")
        elif o == "get":
            c = "gdist g%d %s %s" % (s["i"], s["what"], f(e(s["x"])))
            if not s["ok"]:
                yield c, Want(exc=True, what="as many states in the fragility as in the loss function")
                continue
            m, sg = outcome(s["d"])
            # where probabilities are as good as nil their sums are rounding
            sg = sg if m > 1e-6 else None
            yield c, Want([m, sg], what="mean and log-deviation of the %s of g%d at demand %s" % (s["what"], s["i"], f(e(s["x"]))), tol=1e-6, absol=1e-11)


def run(check):
    exe = build.program("slatdrv", ["slatdrv.cpp"])
    check.tlc(tlc.check("Loss", tlc.config(dict(Depth=0), spec="SpecSmall", invariants=["BiLevelOk"]), check.work))
    r = tlc.check("Loss", tlc.config(dict(Depth=0), spec="SpecSweep", invariants=["EmitSweep"]), check.work, workers=1)
    check.tlc(r)
    judge(check, exe, r.lines(), steps, "counts around the bounds")
    per, n = tlc.simulate("Loss", tlc.config(dict(Depth=30), invariants=["Emit"]), check.work, check.pick(80, 2000), 60, check.seed)
    check.add("states", n)
    check.add("transitions", n)
    judge(check, exe, [h for p in per for h in p], steps, "histories of definitions and queries")
    check.assumptions += ["probabilities are non-negative and add up to at most one; counts are not negative; deviations are positive",
                          "answers are compared with a relative tolerance of 1e-6 (groups) and 1e-7 (loss functions)"]
