"""P26: LogNormal.tla against lognormaldist.cpp."""
import math
from vlib import tlc, build
from vlib.terms import evaluate
from vlib.replay import Want, f, fs, judge

def steps(h):
    env = {}
    w = WANTS
    e = lambda t: evaluate(t, env)
    for s in h:
        op, i = s["op"], s["i"]
        if op["o"] == "mismatch":
            yield "ldmix x %d %s %s" % (len(op["s"]), " ".join(map(str, op["s"])), fs(e(x) for x in op["w"])), Want(exc=True, what="as many weights as distributions")
            continue
        if op["o"] == "fn":
            yield "det m plc %s %d" % (f(e(op["a"])), op["b"]), Want()
            yield "det s plc %s 0" % f(e(op["s"])), Want()
            yield "prob p m %s s %s" % (op["loc"], op["sp"]), Want(text="ok")
            for a in op["at"]:
                env["mu"], env["sg"] = e(a["mu"]), e(a["sg"])
                # only the probabilities of exceedance: the first of them
                yield "probfn p %s %s" % (f(e(a["x"])), fs(map(e, w["xs"]))), \
                    Want([e(t) for t in w["fn"] + w["prob"][:len(w["xs"])]], what="function given by %s and %s: mean, log-mean, median, log-deviation, deviation, exceedances" % (op["loc"], op["sp"]), tol=1e-7, absol=1e-10)
            continue
        env["%d.mu" % i], env["%d.sg" % i] = e(s["mu"]), e(s["sg"])
        cmd = {"build": lambda: "ld %d %s %s %s" % (i, op["k"], f(e(op["a"])), f(e(op["b"]))),
               "scale": lambda: "ldscale %d %s %d %s" % (i, op["how"], op["j"], f(e(op["f"]))),
               "add": lambda: "ldadd %d %d %s" % (i, len(op["s"]), " ".join(map(str, op["s"]))),
               "mix": lambda: "ldmix %d %d %s %s" % (i, len(op["s"]), " ".join(map(str, op["s"])), fs(e(x) for x in op["w"]))}[op["o"]]()
        env["mu"], env["sg"] = env["%d.mu" % i], env["%d.sg" % i]
        mom = [e(t) for t in w["mom"]]
        if s["zero"]:
            # nothing is left of the spread of a distribution that is zero
            mom = [0.0, None, 0.0, -math.inf, 0.0]
        yield cmd, Want(mom, what="mean, log-deviation, deviation, log-mean, median", tol=1e-7)
        if not s["zero"]:
            yield "ldp %d %s %s" % (i, fs(map(e, w["xs"])), fs(map(e, w["ps"]))), Want([e(t) for t in w["prob"]], what="probabilities and quantiles", tol=1e-7, absol=1e-10)


WANTS = None


def run(check):
    exe = build.program("slatdrv", ["slatdrv.cpp"])
    r = tlc.check("LogNormal", tlc.config(dict(Depth=1), spec="SpecEvery", invariants=["EmitEvery"]), check.work, workers=1)
    check.tlc(r)
    global WANTS
    WANTS = r.lines("##")[0]
    judge(check, exe, r.lines(), steps, "constructions")
    per, n = tlc.simulate("LogNormal", tlc.config(dict(Depth=14), invariants=["Emit"]), check.work, check.pick(60, 1500), 30, check.seed)
    check.add("states", n)
    check.add("transitions", n)
    hs = [h for p in per for h in p]
    judge(check, exe, hs, steps, "chains of operations")
    check.assumptions += ["weights of a mixture add up to at most one; deviations are positive",
                          "figures are compared with a relative tolerance of 1e-7"]
