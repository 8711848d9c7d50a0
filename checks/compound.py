"""P15: Compound.tla against CompoundEDP (relationships.cpp)."""
from vlib import tlc, build
from vlib.terms import evaluate
from vlib.replay import Want, f, fs, judge
from vlib.driver import tokens, close

CONST = None


def numbers(got):
    return [x for x in tokens(got) if not isinstance(x, str)]


def steps(h):
    yield "det h plc 0.001 -2.5", Want()
    yield "im i h", Want()
    for s in h:
        o = s["op"]
        if o == "start":
            for n, d in sorted(s["det"].items()):
                yield "mdet %s plc %s %d" % (n, f(evaluate(d["a"])), d["b"]), Want()
            for n, p in sorted(s["prob"].items()):
                yield "prob %s %s %s %s %s" % (n, p["m"], p["loc"], p["s"], p["sp"]), Want(text="ok")
            for n, e in sorted(s["edp"].items()):
                yield "cedp %s i %s %s" % (n, e[0], e[1]), Want(text="ok")
        elif o == "change":
            yield "chgdet %s plc %s %d" % (s["x"], f(evaluate(s["a"])), s["b"]), Want(text="ok")
        elif o == "replace":
            yield "replace %s %s" % (s["x"], s["y"]), Want(text="ok")
        elif o == "ask":
            x = f(evaluate(s["x"]))
            d = {k: {q: evaluate(t) for q, t in s[k].items()} for k in ("dp", "dq")}
            a, b = d["dp"]["mean"], d["dq"]["mean"]
            tie = close(a, b, 1e-6)
            gov = s["p"] if a > b else s["q"]
            which = "either" if tie else "first" if a > b else "second"
            wants = [[evaluate(t, d[k]) for t in CONST["answers"]] for k in (("dp", "dq") if tie else ("dp",) if a > b else ("dq",))]

            def check(got, wants=wants, which=which):
                g = numbers(got)
                if got.startswith(("EXC", "DIED")) or len(g) != len(wants[0]) + 6:
                    return got
                m = g[:len(wants[0])]
                if not any(all(close(u, v, 1e-7, 1e-11) for u, v in zip(m, w)) for w in wants):
                    return "%s where the governing demand says %s" % (m, wants[0])
                # values at a probability: those of one of the two, and of the governing one
                one, two, three = g[-6:-4], g[-4:-2], g[-2:]
                ok = [two, three] if which == "either" else [two] if which == "first" else [three]
                if not any(all(close(u, v, 1e-9) for u, v in zip(one, w)) for w in ok):
                    return "values %s at a probability where the governing demand says %s" % (one, ok[0])
            yield "compound %s %s %s %s %s" % (s["e"], s["p"], s["q"], x, fs(map(evaluate, CONST["ys"]))), \
                Want(check=check, what="%s at %s, governed by %s (means %r and %r)" % (s["e"], x, gov, a, b))


def run(check):
    global CONST
    exe = build.program("slatdrv", ["slatdrv.cpp"])
    check.tlc(tlc.check("Compound", tlc.config(dict(Depth=0), spec="SpecSmall", invariants=["LargerOk"]), check.work))
    cfg = tlc.config(dict(Depth=40), invariants=["Emit"])
    per, n = tlc.simulate("Compound", cfg, check.work, check.pick(40, 1000), 80, check.seed)
    r = tlc.run("Compound", cfg, check.work, args=["-simulate", "num=1", "-depth", "2"], workers=1)
    CONST = r.lines("##")[0]
    check.add("states", n)
    check.add("transitions", n)
    judge(check, exe, [h for p in per for h in p], steps, "histories of changes and queries")
    check.assumptions += ["where the two means are equal (to 1e-6) either demand may answer, as one",
                          "answers are compared with a relative tolerance of 1e-7"]
