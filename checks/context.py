"""P14: Context.tla against context.cpp, with real OpenMP teams."""
import random, re
from vlib import tlc, build
from vlib.driver import Driver
from vlib.replay import Want, judge
INVARIANTS = ["Mirrors", "Owners", "NoLeak"]


def path(p):
    return ".".join(map(str, p)) or "-"


def text(h, n):
    """the number in the text of context n: in every second behaviour several contexts have the same text"""
    return n // 2 if len(h) % 2 else n


def arg(h, i):
    s = h[i]
    return text(h, s["a"]) if s["o"] == "enter" else i % 2 if s["o"] == "leave" else s["a"]     # some are left by an exception


def command(mode, repeat, plan, h):
    return "%s %d %s ; %s" % (mode, repeat, plan, " ".join("%s:%s:%d" % (path(s["p"]), s["o"], arg(h, i)) for i, s in enumerate(h)))


def look(h):
    def bad(got):
        if got.startswith(("DIED", "EXC")):
            return got
        g = got.split()
        if len(g) != len(h):
            return "%d answers for %d steps" % (len(g), len(h))
        for i, (s, x) in enumerate(zip(h, g)):
            if s["o"] in ("fork", "join"):
                continue
            seen = [y for y in re.split("[/;]+", x) if y]
            if seen != ["c%d" % text(h, y) for y in s["see"]]:
                return "step %d, thread %s (%s): sees %s where it is inside %s" % (i, path(s["p"]), s["o"], x, s["see"])
        return None
    return bad


def run(check):
    exe = build.program("ctxdrv", ["ctxdrv.cpp"], variant="sched", libs=["context"], nosched=["sched.cpp"])
    for c in check.pick([dict(Levels=2, Team=2, High=1), dict(Levels=1, Team=3, High=2)], [dict(Levels=2, Team=2, High=1), dict(Levels=1, Team=3, High=2), dict(Levels=2, Team=2, High=2)]):
        r = tlc.check("Context", tlc.config(dict(c, Depth=0, Lazy=False), invariants=INVARIANTS, constraints=["Bound"], properties=["Undisturbed"]), check.work, timeout=600)
        check.tlc(r)
        check.log("exhaustive %s: %d states" % (c, r.distinct))
    hs = []
    for c, num in ((dict(Levels=3, Team=3, High=4), check.pick(40, 600)), (dict(Levels=1, Team=4, High=4), check.pick(40, 600)), (dict(Levels=4, Team=2, High=2), check.pick(20, 300))):
        per, k = tlc.simulate("Context", tlc.config(dict(c, Depth=check.pick(50, 70), Lazy=True), invariants=["Emit"] + INVARIANTS), check.work, num, 400, check.seed + c["Team"])
        check.add("states", k)
        check.add("transitions", k)
        hs += [h for p in per for h in p]
    env = {"GOMP_SPINCOUNT": "0", "OMP_WAIT_POLICY": "passive"}
    kw = dict(report=1, new_driver=lambda: Driver(exe, timeout=30, env=env))
    judge(check, exe, hs, lambda h: [(command("turns", 1, "0 1 0 0", h), Want(check=look(h), what="in turns"))], "behaviours in their order", **kw)
    judge(check, exe, hs, lambda h: [(command("free", check.pick(5, 40), "0 1 0 0", h), Want(check=look(h), what="each thread as it comes"))], "behaviours in any order", **kw)
    # one level of teams, their members interrupted anywhere
    rnd = random.Random(check.seed)
    flat = [h for h in hs if max(len(s["p"]) for s in h) <= 1 and any(s["o"] == "fork" and s["a"] > 1 for s in h)]
    runs = [(h, "%d %d %g %g" % (rnd.randrange(4), rnd.randrange(1, 1 << 30), *rnd.choice(((0.3, 0), (0.8, 0), (0.1, 0.02), (0, 0.05), (0, 0.3))))) for h in flat for _ in range(check.pick(8, 40))]
    judge(check, exe, runs, lambda x: [(command("sched", 1, x[1], x[0]), Want(check=look(x[0]), what="under the scheduler"))], "behaviours under the scheduler", **kw)
    first = [h for h in flat if h[0]["o"] == "fork" and h[0]["a"] > 1]
    runs = [(h, "%d %d %g %g" % (rnd.randrange(4), rnd.randrange(1, 1 << 30), *rnd.choice(((0.8, 0), (0, 0.1), (0, 0.3), (0, 0.6))))) for h in first for _ in range(check.pick(30, 60))]
    judge(check, exe, runs, lambda x: [(command("cold", 1, x[1], x[0]), Want(check=look(x[0]), what="the first contexts of all"))], "first contexts", **kw)
    check.assumptions += ["contexts are entered and left by threads of OpenMP teams, each leaving those it has entered before its region ends"]
