"""P17: Fragility.tla against fragility.cpp."""
from vlib import tlc, build
from vlib.terms import evaluate
from vlib.replay import Want, f, fs, judge
from vlib.driver import tokens


def numbers(got):
    return [x for x in tokens(got) if not isinstance(x, str)]


def steps(h):
    n, alive = 0, False
    for s in h:
        if s["op"] == "define":
            n += 1
            ok = evaluate(s["ok"])
            cmd = "frag f%d %d %s" % (n, len(s["states"]), " ".join("%s %s %s" % (d["k"], f(evaluate(d["a"])), f(evaluate(d["b"]))) for d in s["states"]))
            yield cmd, Want(text="ok", what="acceptable: at least one state, increasing medians") if ok else Want(exc=True, what="not acceptable: no states, or medians not strictly increasing")
            yield "nstates f%d" % n, Want([len(s["states"])]) if ok else Want(exc=True, what="nothing was created")
            alive = ok
        elif alive:
            x = evaluate(s["x"])
            ex = [evaluate(t) for t in s["exceeded"]]
            yield "pexc f%d %s" % (n, f(x)), Want(ex, what="probabilities of exceedance at %r" % x, tol=1e-7, absol=1e-11)
            hi = [evaluate(t, {str(i + 1): v for i, v in enumerate(ex)}) for t in s["highest"]]
            dec = all(a >= b for a, b in zip(ex, ex[1:]))

            def check(got, hi=hi, ex=ex, dec=dec):
                g = numbers(got)
                if got.startswith("EXC") or len(g) != len(hi):
                    return "one probability per state is due: " + got
                if not all(0 <= v <= 1 for v in g):
                    return "probabilities outside [0, 1]: " + got
                if dec and not all(abs(a - b) <= 1e-9 for a, b in zip(g, hi)):
                    return "%s where the differences are %s" % (g, hi)
                if dec and abs(sum(g) - ex[0]) > 1e-9:
                    return "they add up to %r, not %r" % (sum(g), ex[0])
            yield "phigh f%d %s" % (n, f(x)), Want(check=check, what="highest-state probabilities at %r" % x)


def run(check):
    exe = build.program("slatdrv", ["slatdrv.cpp"])
    check.tlc(tlc.check("Fragility", tlc.config(dict(Depth=0), spec="SpecSmall", invariants=["PartitionOk"]), check.work))
    per, n = tlc.simulate("Fragility", tlc.config(dict(Depth=20), invariants=["Emit"]), check.work, check.pick(150, 4000), 40, check.seed)
    check.add("states", n)
    check.add("transitions", n)
    hs = [h for p in per for h in p]
    judge(check, exe, hs, steps, "definitions and queries")
    ds = [s for h in hs for s in h if s["op"] == "define"]
    check.coverage["definitions"] = len(ds)
    check.coverage["definitions_accepted"] = sum(1 for s in ds if evaluate(s["ok"]))
    check.assumptions += ["parameters are numbers with positive deviations", "where exceedances do not decrease the highest-state probabilities are only required to lie in [0, 1]"]
