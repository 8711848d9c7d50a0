"""P11, P12, P13: Integration.tla against maq.cpp."""
import math, random
from vlib import tlc, build
from vlib.driver import Driver
from vlib.replay import Want, judge, f

N = 256
METHOD = {"binary": 0, "reverse": 1, "lowfirst": 2, "scattered": 3, "directed": 4}
NAME = ["Binary_Subdivision", "Reverse_Binary_Subdivision", "Low-First_Reverse_Binary_Subdivision", "Scattered", "Directed"]
INVARIANTS = ["Accounted", "NotNegative", "WithinBudget", "SearchBudget", "Tiled", "NothingSeen", "RangeSound", "ValidSettings"]
GEN = dict(N=N, Ones="\\<-OnesV", Tinies="\\<-TiniesV", Tolerances="\\<-TolsV", EvalLimits={3, 6, 9, 12, 20, 40, 100},
           SearchLimits={1, 2, 3, 4, 5, 7, 8, 12, 20, 40, 60}, Lazy=True)


def num(q):
    return math.nan if q[1] == 0 else q[0] / q[1]


def table(h):
    p = h["op"]["f"]
    return " ".join([str(len(p))] + ["%d %d %d" % (x["t"], x["b"], x["z"]) for x in p])


def result(h):
    r = h["r"]
    if r["m"] == "ok":
        return [(r["b"] + r["z"] * 2.0 ** -80) / (90.0 * N), 1, r["n"]]
    return [0.0, 1, r["n"]] if r["m"] == "nothing" else [math.nan, 0, r["n"]]


def settings(s):
    return [num(s["tol"]), s["eval"], s["search"], METHOD[s["method"]]]


def counts(t):
    return [t["calls"], t["successes"], t["nans"], t["fails"], t["nothing"], t["maxInt"], t["totInt"], t["maxSearch"], t["totSearch"]]


ORDER = [5, 3, 6, 7, 4, 8, 0, 1, 2]     # of the counts in the printed statistics


def wrong(names, got, want):
    for n, a, b in zip(names, got, want):
        a = float(a)
        if math.isnan(b) != math.isnan(a) or (not math.isnan(b) and abs(a - b) > 1e-9 * abs(b)):
            return "%s is %s where it is to be %s" % (n, a, b)
    return "%d figures where %d are due" % (len(got), len(want)) if len(got) != len(want) else None


FIG = ["tolerance", "evaluation limit", "search limit", "method"]
CNT = ["calls", "successes", "not-a-number failures", "integration failures", "search failures", "largest integration", "total of integrations", "largest search", "total of searches"]


def figures(text, h, parts):
    """what is wrong with the settings and statistics reported; parts: which of settings, counts are looked at"""
    nums, _, words = text.partition(" |")
    g = nums.split()
    w = words.split()
    if "settings" in parts:
        s = settings(h["set"])
        bad = wrong(FIG, g[0:4], s) or wrong(["reported " + x for x in FIG], g[4:8], s)
        if not bad and (w[0] != NAME[int(s[3])] or wrong(["printed " + x for x in FIG], [round(float(x), 12) for x in w[1:4]], [float("%.6g" % s[0]), s[1], s[2]])):
            bad = "the statistics print %s" % words
        if bad:
            return bad
    if "counts" in parts:
        c = counts(h["stats"])
        bad = wrong(CNT, g[8:], c) or wrong(["printed " + CNT[i] for i in ORDER], w[4:], [c[i] for i in ORDER])
        if bad:
            return bad
    return None


def steps_for(parts):
    def steps(b):
        for h in b:
            op = h["op"]
            if op["o"] == "integrate":
                def look(got, h=h):
                    if got.startswith(("DIED", "EXC")):
                        return got
                    r, _, rest = got.partition(" ; ")
                    bad = wrong(["the integral", "success", "evaluations"], r.split(), result(h)) if "result" in parts else None
                    return bad or figures(rest, h, parts)
                yield "int " + table(h), Want(check=look, what="%s with %s" % (h["r"]["m"], h["set"]))
            else:
                if op["o"] == "all":
                    s = h["set"]
                    for k, v in (("tol", f(num(s["tol"]))), ("eval", s["eval"]), ("search", s["search"])):
                        yield "set %s %s" % (k, v), Want()
                    c = "set method %d" % METHOD[s["method"]]
                elif op["o"] in ("tol", "eval", "search", "method"):
                    v = f(num(op["v"])) if op["o"] == "tol" else METHOD[op["v"]] if op["o"] == "method" else op["v"]
                    c = "set %s %s" % (op["o"], v)
                else:
                    c = "set " + op["o"]
                yield c, Want(check=lambda got, h=h: got if got.startswith(("DIED", "EXC")) else figures(got, h, parts), what=str(op))
    return steps


def command(ints, threads, order, seed=1, psync=0, pmem=0, at=()):
    return "par %d %d %d %g %g %d %s %d %s" % (threads, order, seed, psync, pmem, len(at), " ".join("%d %d" % a for a in at), len(ints), " ".join(map(table, ints)))


def integrations(b):
    return [h for h in b if h["op"]["o"] == "integrate"]


def concurrent(check, exe, batches, pairs, per):
    """the integrations of a batch on several threads at once: each result and the totals are those of the specification"""
    rnd = random.Random(check.seed)
    runs = []
    for b in batches:
        ints = integrations(b)
        for k in range(per):
            t = rnd.choice((2, 3, 4))
            at = sorted(rnd.randrange(1, 300) for _ in range(rnd.choice((0, 2, 2, 3))))
            ps, pm = rnd.choice(((0.3, 0), (0.7, 0), (0.2, 0.02), (0, 0.1), (0.5, 0.3))) if not at else (0, 0)
            runs.append((b, command(ints, t, rnd.randrange(t), rnd.randrange(1 << 30), ps, pm, [(a, rnd.randrange(1, t)) for a in at])))
    # two integrations, and every place where one may be interrupted by the other
    d = Driver(exe, timeout=60)
    out, err = d.batch([command(integrations(b), 2, 0) for b in pairs])
    if err is None:
        d.close()
    else:
        d.forget()
    for b, o in zip(pairs, out):
        n = int(o.split(" ; ")[-1]) if " ; " in o else 200
        runs += [(b, command(integrations(b), 2, order, at=[(k, 1)])) for order in (0, 1) for k in range(1, n + 1)]
    most = check.pick(80000, 800000)
    if len(runs) > most:
        runs = rnd.sample(runs, most)
    check.log("%d concurrent executions" % len(runs))

    def steps(x):
        b, cmd = x
        yield from (list(steps_for(("settings",))(b[:1])) + [("set resetstats", Want())])
        ints = [h for h in b if h["op"]["o"] == "integrate"]

        def look(got):
            if got.startswith(("DIED", "EXC")):
                return got
            ps = got.split(" ; ")
            for h, r in zip(ints, ps):
                bad = wrong(["the integral", "success", "evaluations"], r.split(), result(h))
                if bad:
                    return bad
            return figures(ps[len(ints)], b[-1], ("settings", "counts"))
        yield cmd, Want(check=look, what="%d integrations on several threads" % len(ints))
    judge(check, exe, runs, steps, "concurrent batches", report=1, new_driver=lambda: Driver(exe, timeout=20))


def run(check):
    exe = build.program("intdrv", ["intdrv.cpp"], variant="sched", libs=["maq", "context"], nosched=["sched.cpp"])
    # every integration of the small instance, and every order of three changes of settings
    small = dict(N=16, Ones={1}, Tinies={1}, Tolerances="\\<-OneTol", EvalLimits=check.pick({6, 8}, {5, 6, 7, 8, 11}), SearchLimits=check.pick({3, 5}, {1, 2, 3, 5}), Lazy=False)
    r = tlc.check("IntegrationGen", tlc.config(dict(small, Ops=2), spec="BatchSpec", invariants=INVARIANTS), check.work, timeout=600)
    check.tlc(r)
    if check.thorough:
        r2 = tlc.check("IntegrationGen", tlc.config(dict(small, N=32, Tinies=set(), Ops=2), spec="BatchSpec", invariants=INVARIANTS), check.work, timeout=800)
        check.tlc(r2)
    r2 = tlc.check("IntegrationGen", tlc.config(dict(small, Tolerances="\\<-TolsV", Ops=3), spec="ConfigureSpec", invariants=INVARIANTS, properties=["OneAtATime"]), check.work, timeout=200)
    check.tlc(r2)
    check.log("exhaustive: %d states" % r.distinct)
    parts = {"P11": ("result",), "P12": ("counts",), "P13": ("settings", "result")}[check.prop]
    n = check.pick(60, 1500)
    per, k = tlc.simulate("IntegrationGen", tlc.config(dict(GEN, Ops=25), invariants=["Emit"] + INVARIANTS), check.work, n, 1500, check.seed, timeout=800)
    check.add("states", k)
    check.add("transitions", k)
    hs = [h for p in per for h in p]
    judge(check, exe, hs, steps_for(parts), "histories", report=1, new_driver=lambda: Driver(exe, timeout=20))
    out = {}
    for h in hs:
        for x in h:
            if x["op"]["o"] == "integrate":
                out[x["r"]["m"]] = out.get(x["r"]["m"], 0) + 1
    check.coverage["outcomes"] = out
    if check.prop in ("P11", "P12"):
        per, k = tlc.simulate("IntegrationGen", tlc.config(dict(GEN, Ops=7), spec="BatchSpec", invariants=["Emit"] + INVARIANTS), check.work, check.pick(20, 400), 600, check.seed + 7, timeout=800)
        check.add("states", k)
        check.add("transitions", k)
        two, k = ([], 0) if check.prop == "P11" else tlc.simulate("IntegrationGen", tlc.config(dict(GEN, Ops=3), spec="BatchSpec", invariants=["Emit"] + INVARIANTS), check.work, check.pick(4, 60), 600, check.seed + 8, timeout=800)
        concurrent(check, exe, [h for p in per for h in p], [h for p in two for h in p], check.pick(12, 30))
    check.assumptions += ["integrands take multiples of one and of 2^-80 at points t = k/%d, and are not negative" % N,
                          "not-a-number where the searches start (x = 0 and x = 1) or after the search, not in the midst of one"]
