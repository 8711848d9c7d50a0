"""P10: Queries.tla against the library: bulk, parallel and concurrent queries."""
import random
from vlib import tlc, build, modelgraph as mg
from vlib.driver import Driver, tokens
from vlib.replay import Want, judge, f, fs

NAMES = ["f1", "m1", "m2", "g1"]
CLAMP = lambda v: v if v < 3 else v
ARGS = {"im": [0.0, 0.01, 0.07, 0.15, 0.33, 0.6, 1.1, 1.9, 3.1], "edp": [0.0, 0.001, 0.004, 0.009, 0.016, 0.025, 0.04, 0.07, 0.12],
        "cost": [0.01, 0.05, 0.2, 0.6, 1.5, 4.0, 9.0, 20.0, 60.0]}


def argument(x, q, a):
    kind = "edp" if (x[0] == "e" and q == "lam") or q in ("ecostedp", "edelayedp") else "cost" if q == "lamcost" else "im"
    return ARGS[kind][a - 1]


def model(ver):
    refs = {"p1": dict(mu="m1", sg="g1"), "p2": dict(mu="m2", sg="g1"), "i1": dict(f="f1"), "e1": dict(im="i1", p1="p1"), "e2": dict(im="i1", p1="p2"),
            "e3": dict(im="i1", p1="p1", p2="p2"), "c1": dict(edp="e1", frag="k1", cost="l1", delay="l3"), "c2": dict(edp="e3", frag="k2", cost="l3", delay="l3"),
            "c3": dict(edp="e2", frag="k1", cost="l1", delay="l1"), "s1": {}}
    out = []
    for x in ["f1", "m1", "m2", "g1", "k1", "k2", "l1", "l3", "p1", "p2", "i1", "e1", "e2", "e3", "c1", "c2", "c3", "s1"]:
        ref = dict(mg.NOREF, p2="-")
        ref.update(refs.get(x, {}))
        out.append(mg.make(mg.KIND[x[0]], x, x, ref, x[0] in "fmgl", ver.get(x, 1)))
    out += [change("i1", ver["i1"]), "dem i1 " + mg.DEM[1], change("s1", ver["s1"]), "demo s1 " + mg.DMO[1], "add s1 c1", "add s1 c2", "add s1 c3"]
    return out


def change(d, v):
    if d == "i1":
        return "col i1 " + mg.COL[(v - 1) % 3 + 1]
    if d == "s1":
        return "rebuild s1 " + mg.REB[(v - 1) % 3 + 1]
    return ("chgloss %s %s" % (d, mg.loss_spec(d, v))) if d[0] == "l" else "chgdet %s %s" % (d, mg.det_spec(d, v))


class Alone:
    """answers of a model built from scratch, asked one question at a time by one thread"""
    def __init__(self, exe):
        self.exe, self.memo = exe, {}

    def resolve(self, asks):
        """asks: set of (versions, object, question, argument)"""
        by = {}
        for v, x, q, a in asks:
            if (v, x, q, a) not in self.memo:
                by.setdefault(v, []).append((x, q, a))
        from concurrent.futures import ThreadPoolExecutor

        def one(item):
            v, qs = item
            cmds = ["reset", mg.SETTINGS] + model(dict(v)) + ["val %s %s 1 %s" % (x, q, f(argument(x, q, a))) for x, q, a in qs]
            d = Driver(self.exe)
            out, err = d.batch(cmds)
            if err:
                raise RuntimeError("the serial reference: " + err)
            d.close()
            return [((v,) + k, tokens(o)[0] if not o.startswith("EXC") else o) for k, o in zip(qs, out[-len(qs):])]
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(one, by.items()):
                self.memo.update(r)


DEFS = ["f1", "m1", "m2", "g1", "l1", "l3", "i1", "s1"]


def asks(h):
    ver = {d: 1 for d in DEFS}
    for s in h:
        key = tuple(sorted(ver.items()))
        if s["op"] == "change":
            ver[s["d"]] = s["v"]
        elif s["op"] in ("ask", "bulk"):
            for a in s["as"]:
                yield key, s["x"], s["q"], a
        elif s["op"] == "together":
            for p in s["ps"]:
                for x, q, a in p:
                    yield key, x, q, a
        elif s["op"] == "lists":
            for p in s["ps"]:
                for a in p["as"]:
                    yield key, p["x"], p["q"], a


def steps_for(alone, plan, tol=1e-9, times=100):
    def steps(h):
        ver = {d: 1 for d in DEFS}
        for c in [mg.SETTINGS, "threads 1 1"] + model(ver):
            yield c, Want()
        for i, s in enumerate(h):
            key = tuple(sorted(ver.items()))
            if s["op"] == "change":
                ver[s["d"]] = s["v"]
                yield change(s["d"], s["v"]), Want()
            elif s["op"] == "forget":
                yield "clearcaches", Want()
            elif s["op"] == "threads":
                yield "threads %d %d" % (s["t"], s["l"]), Want()
            elif s["op"] in ("ask", "bulk"):
                want = [alone.memo[(key, s["x"], s["q"], a)] for a in s["as"]]
                xs = fs(argument(s["x"], s["q"], a) for a in s["as"])
                if s["op"] == "ask":
                    yield "val %s %s %s" % (s["x"], s["q"], xs), Want(want, what="one at a time", tol=tol)
                elif s["nested"]:
                    yield "nbulk %s %s %d %s" % (s["x"], s["q"], s["nested"], xs), Want(want * s["nested"], what="a list, from inside a parallel region", tol=tol)
                else:
                    yield "bulk %s %s %s" % (s["x"], s["q"], xs), Want(want, what="a list at once", tol=tol)
            elif s["op"] == "lists":
                want = [alone.memo[(key, p["x"], p["q"], a)] for p in s["ps"] for a in p["as"]]
                yield "lists %d %d %s" % (len(s["ps"]), times, " ".join("%s %s %s" % (p["x"], p["q"], fs(argument(p["x"], p["q"], a) for a in p["as"])) for p in s["ps"])), \
                    Want(want, what="several threads at once, each with a list of its own", tol=tol)
            else:
                want = [alone.memo[(key, x, q, a)] for p in s["ps"] for x, q, a in p]
                yield "together %d %s %s" % (len(s["ps"]), plan(i), " ".join("%d %s" % (len(p), " ".join("%s %s %s" % (x, q, f(argument(x, q, a))) for x, q, a in p)) for p in s["ps"])), \
                    Want(want, what="several threads at once", tol=tol)
    return steps


def run(check):
    exe = build.program("slatdrv", ["slatdrv.cpp"])
    small = dict(Depth=0, MaxList=2, MaxThreads=2, MaxProgram=1, Lazy=False, Modes={"bulk"})
    check.tlc(tlc.check("Queries", tlc.config(small, invariants=["Current"], constraints=["Small"]), check.work))
    alone = Alone(exe)
    rnd = random.Random(check.seed)

    def generate(num, depth, modes, seed, threads, program, longest=None):
        per, k = tlc.simulate("Queries", tlc.config(dict(Depth=depth, MaxList=longest or rnd.choice((17, 24, 33)), MaxThreads=threads, MaxProgram=program, Lazy=True, Modes=modes), invariants=["Emit", "Current"]),
                              check.work, num, depth + 5, seed, timeout=800)
        check.add("states", k)
        check.add("transitions", k)
        hs = [h for p in per for h in p]
        alone.resolve({a for h in hs for a in asks(h)})
        return hs
    hs = generate(check.pick(16, 200), 40, {"bulk"}, check.seed, 2, 1)
    check.log("%d histories, %d answers asked for alone" % (len(hs), len(alone.memo)))
    judge(check, exe, hs, steps_for(alone, lambda i: "0"), "bulk queries", report=1, procs=4)
    check.log("bulk done")
    judge(check, exe, generate(check.pick(1, 10), 20, {"bulk"}, check.seed + 3, 2, 1, longest=600), steps_for(alone, lambda i: "0", times=3), "long lists", report=1, procs=4)
    check.log("long lists done")
    # the same with every access to memory in its place (unoptimised) and now and then delayed, so that threads that share what they should not do meet
    nx = build.program("slatdrv", ["slatdrv.cpp"], variant="sched", extra=["-DWITH_SCHED", "-O0"], nosched=["sched.cpp"])
    some = hs[:check.pick(32, 400)]
    judge(check, nx, some, steps_for(alone, lambda i: "0", times=3), "bulk queries with delays", report=1, procs=4, new_driver=lambda: Driver(nx, timeout=200, env={"SCHED_NOISE": "100"}))
    check.log("bulk with delays done")
    hs = generate(check.pick(8, 100), 15, {"together"}, check.seed + 1, 6, 6)
    judge(check, exe, hs, steps_for(alone, lambda i: "0"), "concurrent queries", report=1, procs=4)
    check.log("concurrent done")
    sx = build.program("slatdrv", ["slatdrv.cpp"], variant="sched", extra=["-DWITH_SCHED"], nosched=["sched.cpp"])
    hs = generate(check.pick(2, 40), 8, {"together"}, check.seed + 2, 3, 2)

    def plan(i):
        return "4 %d %d %s" % (rnd.randrange(3), rnd.randrange(1, 1 << 30), rnd.choice(("0.2 0", "0.05 0", "0.5 0.001", "0 0.0005", "0.01 0.0001")))
    judge(check, sx, hs, steps_for(alone, plan), "queries under the scheduler", report=1, new_driver=lambda: Driver(sx, timeout=200))
    check.assumptions += ["the numeric parameters behind the specification's identifiers are fixed", "results are compared with a relative tolerance of 1e-9 to those of a serial run of the same library"]
