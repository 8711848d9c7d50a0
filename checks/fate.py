"""P16: Fate.tla against IM (relationships.*) and Structure (structure.cpp)."""
import math
from vlib import tlc, build
from vlib.terms import evaluate
from vlib.replay import Want, f, judge
from vlib.driver import tokens, close

PRELUDE = ["det h plc 0.001 -2.5", "im i h", "det m1 plc 0.05 1.2", "det m2 plc 0.4 0.9", "det s plc 0.4 0",
           "prob p1 m1 mean s sdln", "prob p2 m2 mean s sdln", "edp e1 i p1", "edp e2 i p2",
           "frag f1 2 med_sdln 0.01 0.3 med_sdln 0.04 0.4", "frag f2 1 med_sdln 0.2 0.3",
           "sloss l1 2 mean_sdln 1.5 0.3 mean_sdln 9.0 0.5", "bloss l2 1 2 10 4.0 2.5 0.3",
           "cg g1 e1 f1 l1 - 3 1 1", "cg g2 e2 f2 l2 - 5 1.5 1", "cg g3 e1 f1 l1 - 40 1 1", "st s"]


def dist(d):
    return "%s %s %s" % (d["k"], f(evaluate(d["a"])), f(evaluate(d["b"])))


def steps(h):
    for c in PRELUDE:
        yield c, Want(text="ok")
    for s in h:
        o = s["op"]
        if o in ("col", "dem"):
            if s["d"]:
                yield "%s%s i %s" % (o, "p" if s["ptr"] else "", dist(s["d"][0])), Want(text="ok")
            else:
                yield "%snone i" % o, Want(text="ok")
        elif o in ("rebuild", "demo"):
            yield "%s s %s" % (o, dist(s["d"])), Want(text="ok")
        elif o == "both":
            yield "rebuild s " + dist(s["d"]), Want(text="ok")
            yield "demo s " + dist(s["d"]), Want(text="ok")
        elif o == "add":
            yield "add s g%d" % s["g"], Want(text="ok")
        elif o == "probs":
            env = {}
            for k, t in s["lets"]:
                env[k] = evaluate(t, env)
            yield "fates i %s" % f(evaluate(s["x"])), Want(check=lambda got, env=env: probs(got, env), what="probabilities of collapse, demolition and repair at %s" % f(evaluate(s["x"])))
        elif o == "costs":
            yield "fatecost s %s" % f(evaluate(s["x"])), Want(check=lambda got, s=s: costs(got, s), what="costs at %s" % f(evaluate(s["x"])))
        elif o == "years":
            yield "yearcost s %d %s" % (s["y"], f(evaluate(s["r"]))), Want(check=lambda got, s=s: years(got, s), what="cost over %d years" % s["y"])


def numbers(got):
    return [x for x in tokens(got) if not isinstance(x, str)]


def probs(got, env):
    g = numbers(got)
    if got.startswith(("EXC", "DIED")) or len(g) != 3:
        return got
    if not all(-1e-12 <= p <= 1 + 1e-12 for p in g) or abs(sum(g) - 1) > 1e-12:
        return "not a partition: " + got
    for p, k in zip(g, ("pC", "pD", "pR")):
        if abs(p - env[k]) > 1e-9:
            return "%s is %r, which has to be %r" % (k, p, env[k])


def costs(got, s):
    if got.startswith(("EXC", "DIED")):
        return got
    g = dict(zip(("rm", "rs", "total", "tsd", "fr", "fd", "fc", "nc", "dc", "with", "wsd"), numbers(got)))
    env = {"rm": g["rm"], "rs": g["rs"]}
    for k, t in s["lets"]:
        env[k] = evaluate(t, env)

    def differ(k, want, tol=1e-8):
        if math.isnan(want):
            return None
        if not close(g[k], want, tol, 1e-10):
            return "%s is %r, which has to be %r (%s)" % (k, g[k], want, {a: env[a] for a in ("pC", "pD", "pR", "rm")})
    bad = differ("total", env["total"]) or differ("fr", env["fr"]) or differ("nc", env["nc"])
    if not bad and s["dmo"]:
        bad = differ("fd", env["fd"])
    if not bad and s["reb"]:
        bad = differ("fc", env["fc"]) or differ("dc", env["fc"]) or differ("with", env["with"])
    # the deviation, unless lost in rounding
    if not bad and env["var"] > 1e-6 * env["second"] > 0:
        bad = differ("tsd", math.sqrt(env["var"]), 1e-6)
    elif not bad and not math.isnan(env["var"]) and not 0 <= g["tsd"] <= 2e-3 * math.sqrt(max(0, env["second"])):
        bad = "tsd is %r where there is next to no deviation" % g["tsd"]
    if not bad and s["reb"] and s["dmo"] and not close(g["fr"] + g["fd"] + g["fc"], g["total"], 1e-8, 1e-10):
        bad = "the costs by fate add up to %r, the total is %r" % (g["fr"] + g["fd"] + g["fc"], g["total"])
    return bad


def years(got, s):
    g = numbers(got)
    if got.startswith(("EXC", "DIED")) or len(g) != 3:
        return got
    want = evaluate(s["factor"]) * g[0]
    if not (close(g[1], want, 1e-9) and close(g[2], want, 1e-9)):
        return "%r and %r where %r is due, the annual cost being %r" % (g[1], g[2], want, g[0])


def run(check):
    exe = build.program("slatdrv", ["slatdrv.cpp"])
    check.tlc(tlc.check("Fate", tlc.config(dict(Depth=0), spec="SpecSmall", invariants=["PartitionOk"]), check.work))
    per, n = tlc.simulate("Fate", tlc.config(dict(Depth=40), invariants=["Emit"]), check.work, check.pick(30, 800), 80, check.seed)
    check.add("states", n)
    check.add("transitions", n)
    judge(check, exe, [h for p in per for h in p], steps, "histories of settings and queries")
    check.assumptions += ["what an unset cost contributes is not specified unless its probability is zero",
                          "probabilities are compared to 1e-9, costs with a relative tolerance of 1e-8"]
