"""ModelGraph.tla: exhaustive checks of the specification, and replay of its behaviours."""
import json
from . import tlc, build
from .driver import Driver, DriverDied, same

# What the identifiers of the specification stand for.  The numbers do not
# matter, as long as every one of them makes a difference.
def det_spec(x, v):
    if x[0] == "f":
        i = int(x[1:])
        if i == 3:
            y = [0.3, 0.05, 0.01, 0.002, 0.0002]
            return "loglog 5 0.01 0.1 0.4 1.0 3.0 5 " + " ".join(repr(q * (1 + 0.2 * v)) for q in y)
        return "nlh %r %r %r" % (1000 + 150 * i + 40 * v, 27 + i + 0.5 * v, 60 + 2 * i + 1.5 * v)
    if x[0] == "m":
        i = int(x[1:])
        if i == 4:
            return "lin 4 0.0 0.5 1.5 4.0 4 " + " ".join(repr(q * (1 + 0.1 * v)) for q in (0.001, 0.03, 0.08, 0.12))
        return "plc %r %r" % (0.015 + 0.01 * i + 0.004 * v, 1.1 + 0.1 * i + 0.03 * v)
    i = int(x[1:])
    return "plc %r %r" % (0.3 + 0.1 * i + 0.05 * v, 0.02 * v)

COL = {1: "mean_sdln 1.2 0.47", 2: "med_sdln 1.9 0.4", 3: "mean_sd 0.9 0.3"}
DEM = {1: "mean_sdln 0.9 0.4", 2: "med_sdln 0.5 0.5", 3: "mu_sdln 0.1 0.3"}
REB = {1: "mean_sdln 14 0.35", 2: "mean_sdln 20 0.5", 3: "mean_sd 9 2"}
DMO = {1: "mean_sdln 8 0.35", 2: "mean_sdln 5 0.2", 3: "mean_sd 3 1"}
FRAG = {"k1": "3 med_sdln 0.005 0.4 med_sdln 0.015 0.4 med_sdln 0.03 0.5",
        "k2": "3 mean_sdln 0.008 0.3 mean_sdln 0.02 0.5 mean_sdln 0.06 0.4"}
PROB = {"p1": ("mean", "sdln"), "p2": ("median", "sdln"), "p3": ("mean", "sd"), "p4": ("meanln", "sdln")}
CG = {"c1": "1 1 1", "c2": "4 1.25 1", "c3": "10 1 0.5", "c4": "25 0.8 2"}


def loss_spec(x, v):
    i = int(x[1:])
    k = 1 + 0.3 * v
    if i == 3:
        return "bloss 3 5 20 %r %r %r 5 20 %r %r 0.4 5 20 %r %r 0.35" % (0.3 * k, 0.2 * k, 0.2 + 0.1 * v, 0.9 * k, 0.6 * k, 2.5 * k, 1.5 * k)
    # every version has other dispersions too
    return "sloss 3 mean_sdln %r %r mean_sdln %r %r mean_sdln %r %r" % (0.1 * i * k, 0.3 + 0.1 * v, 0.5 * i * k, 0.4 + 0.05 * i * v, 1.7 * i * k, 0.5 + 0.1 * v)


SETTINGS = "settings 0.02 512 256 4"


def prob_types(x):
    return PROB[x]


def make(k, x, name, ref, mutable=False, v=1):
    """command that makes object x under the given name from the given references"""
    if k == "det":
        return "%s %s %s" % ("mdet" if mutable else "det", name, det_spec(x, v))
    if k == "loss":
        l = loss_spec(x, v)
        if mutable:
            return "mloss %s %s" % (name, l)
        a, b = l.split(" ", 1)
        return "%s %s %s" % (a, name, b)
    if k == "prob":
        mt, st = prob_types(x)
        return "prob %s %s %s %s %s" % (name, ref["mu"], mt, ref["sg"], st)
    if k == "im":
        return "im %s %s" % (name, ref["f"])
    if k == "edp":
        if ref["p2"] != "-":
            return "cedp %s %s %s %s" % (name, ref["im"], ref["p1"], ref["p2"])
        return "edp %s %s %s" % (name, ref["im"], ref["p1"])
    if k == "frag":
        return "frag %s %s" % (name, FRAG[x])
    if k == "cg":
        return "cg %s %s %s %s %s %s" % (name, ref["edp"], ref["frag"], ref["cost"], ref["delay"], CG[x])
    return "st %s" % name


class Reference:
    """answers of models built from scratch from a definition"""
    def __init__(self, exe, **kw):
        self.exe, self.memo, self.kw = exe, {}, kw
        self.d = None
        self.builds = 0

    def _build(self, d, cmds, names):
        key = json.dumps(d, sort_keys=True)
        if key in names:
            return names[key]
        k = d["k"]
        if k == "none":
            return "-"
        n = "r%d" % len(names)
        sub = {p: self._build(d[p], cmds, names) for p in d if isinstance(d[p], dict)}
        if k == "st":
            mem = [self._build(x, cmds, names) for x in d["mem"]]
        n = "r%d" % len(names)
        names[key] = n
        ref = {p: "-" for p in ("p2", "cost", "delay")}
        ref.update(sub)
        cmds.append(make(k, d["id"], n, ref, False, d.get("v", 1)))
        if k == "im":
            if d["col"]:
                cmds.append("col %s %s" % (n, COL[d["col"]]))
            if d["dem"]:
                cmds.append("dem %s %s" % (n, DEM[d["dem"]]))
        if k == "st":
            if d["reb"]:
                cmds.append("rebuild %s %s" % (n, REB[d["reb"]]))
            if d["dmo"]:
                cmds.append("demo %s %s" % (n, DMO[d["dmo"]]))
            cmds += ["add %s %s" % (n, x) for x in mem]
        return n

    def answer(self, d, q):
        key = (json.dumps(d, sort_keys=True), q)
        if key not in self.memo:
            if self.d is None:
                self.d = Driver(self.exe, **self.kw)
            cmds = ["reset", SETTINGS]
            n = self._build(d, cmds, {})
            cmds.append("get %s %s" % (n, q))
            out, err = self.d.batch(cmds)
            if err:
                self.d.forget()
                self.d = None
                self.memo[key] = "DIED " + err
            else:
                self.builds += 1
                self.memo[key] = out[-1]
        return self.memo[key]

    def close(self):
        if self.d:
            self.d.close()
            self.d = None


def commands(hist, mutable, variant=0):
    """driver commands of a behaviour: list of (command, step index)"""
    out = []
    for i, s in enumerate(hist):
        op, x = s["op"], s["x"]
        if op == "new":
            c = make(s["k"], x, x, s["ref"], x in mutable)
        elif op == "change":
            c = ("chgdet %s %s" % (x, det_spec(x, s["v"]))) if x[0] != "l" else ("chgloss %s %s" % (x, loss_spec(x, s["v"])))
        elif op == "replace":
            c = "replace %s %s" % (x, s["y"])
        elif op in ("col", "dem"):
            c = "%s%s %s %s" % (op, "p" if (i + variant) % 2 else "", x, (COL if op == "col" else DEM)[s["v"]])
        elif op == "add":
            c = "add %s %s" % (x, s["y"])
        elif op == "rem":
            c = "rem %s %s" % (x, s["y"])
        elif op == "reb":
            c = "rebuild %s %s" % (x, REB[s["v"]])
        elif op == "dmo":
            c = "demo %s %s" % (x, DMO[s["v"]])
        elif op == "drop":
            c = "drop " + x
        elif op == "members":
            c = "members " + x
        elif op == "read":
            c = "get %s %s" % (x, " ".join(sorted(s["qs"])))
        else:
            raise ValueError(op)
        out.append(c)
    return out


def expect(s, ref):
    """what the driver has to answer to this step"""
    op = s["op"]
    if op == "add" and not s["ok"]:
        return lambda r: r.startswith("EXC")
    if op == "members":
        # a member that the program no longer holds has no name any more
        held = set(s["held"])
        return lambda r: (r.split() if r != "ok" else []) == [x if x in held else "?" for x in s["mem"]]
    if op == "read":
        want = ref.answer(s["def"], " ".join(sorted(s["qs"])))
        return lambda r: same(r, want, rel=1e-7), want
    return lambda r: r == "ok"


class Mismatch:
    def __init__(self, step, op, got, want, kind, obj):
        self.step, self.op, self.got, self.want, self.kind, self.obj = step, op, got, want, kind, obj


def replay(exe, hist, mutable, ref, cmp=True, **kw):
    """the first step whose result differs from what the specification says, or None"""
    cmds = commands(hist, mutable)
    d = Driver(exe, **kw)
    out, err = d.batch(["reset", SETTINGS] + cmds)
    mm = None
    out = out[2:]
    for i, s in enumerate(hist):
        if i >= len(out):
            mm = Mismatch(i, cmds[i], "DIED: %s" % err, "", "died", s["x"])
            break
        if not cmp and s["op"] == "read":
            continue
        e = expect(s, ref)
        want = None
        if isinstance(e, tuple):
            e, want = e
        if not e(out[i]):
            mm = Mismatch(i, cmds[i], out[i], want or json.dumps({k: s[k] for k in s if k != "def"}), s["op"], s["x"])
            break
    if err is not None:
        d.forget()
    else:
        end = d.close()
        if mm is None and end:
            mm = Mismatch(len(hist), "exit", "DIED: %s" % end, "", "died", "")
    return mm


def shrink(exe, hist, mutable, ref, mm, budget=60, **kw):
    """a shorter behaviour with the same kind of mismatch, keeping it well-formed:
    only steps without effect on the definition (reads, members) are dropped"""
    h = hist[:mm.step + 1]
    i = len(h) - 2
    while i >= 0 and budget:
        if h[i]["op"] in ("read", "members", "drop"):
            budget -= 1
            g = h[:i] + h[i + 1:]
            m2 = replay(exe, g, mutable, ref, **kw)
            if m2 and m2.kind == mm.kind and m2.obj == mm.obj and m2.step == len(g) - 1:
                h, mm = g, m2
        i -= 1
    return h, mm


SETS = dict(DetF={"f1", "f2", "f3"}, DetMu={"m1", "m2", "m3", "m4"}, DetSg={"g1", "g2"},
            Prob={"p1", "p2", "p3", "p4"}, Im={"i1", "i2"}, Edp={"e1", "e2", "e3", "e4"}, CEdp={"e3", "e4"},
            Frag={"k1", "k2"}, Loss={"l1", "l2", "l3"}, Cg={"c1", "c2", "c3", "c4"}, St={"s1", "s2"},
            Mutable={"f1", "f2", "m1", "m2", "m3", "g1", "l1", "l2"}, MaxVer=4, MaxMem=4, Defects=set())


def behaviours(work, focus, num, depth, seed, procs=8, small=False):
    consts = dict(SETS, Depth=depth, Fates={1, 2, 3}, Focus=focus)
    if focus == "im":
        consts.update(Im={"i1", "i2", "i3"}, Frag=set(), Loss=set(), Cg=set(), St=set(), Edp={"e1", "e2", "e3", "e4", "e5"}, CEdp={"e3", "e4", "e5"})
    if focus == "cg":
        consts.update(St=set())
    if small:
        consts.update(DetF={"f1", "f2"}, DetMu={"m1", "m2"}, DetSg={"g1"}, Prob={"p1", "p2"}, Edp={"e1", "e3"}, CEdp={"e3"})
        if focus in ("st", "replace", "drop"):
            consts.update(Cg={"c1", "c2"}, St={"s1"})
    cfg = tlc.config(consts, spec="SpecGen", invariants=["NoStaleResult", "SubscriptionsExact", "OneHazardPerStructure", "Emit"])
    per, n = tlc.simulate("ModelGraphGen", cfg, work, num, depth * 3, seed, procs)
    out, seen = [], set()
    for b in per:
        for h in b:
            k = json.dumps(h[:-1], sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(h)
    return out, n


INST = {
    "A": dict(DetF={"f1", "f2"}, DetMu={"m1", "m2"}, DetSg={"g1"}, Prob={"p1", "p2"}, Im={"i1", "i2"}, Edp={"e1", "e3"}, CEdp={"e3"},
              Frag=set(), Loss=set(), Cg=set(), St=set(), Mutable={"f1", "m2"}, MaxVer=2, MaxMem=2, Ready="\\<-InstA", Spare="\\<-NoSpare",
              StartMem="\\<-NoMem", DropSet=set(), ReadAll=True, Fates={1}, MaxOps=0),
    "B": dict(DetF={"f1"}, DetMu={"m1"}, DetSg={"g1"}, Prob={"p1"}, Im={"i1"}, Edp={"e1", "e2"}, CEdp=set(), Frag={"k1"}, Loss={"l1", "l2"},
              Cg={"c1", "c2"}, St={"s1"}, Mutable={"f1"}, MaxVer=2, MaxMem=2, Ready="\\<-InstB", Spare="\\<-NoSpare", StartMem="\\<-MemB",
              DropSet={"s1"}, ReadAll=True, Fates=set(), MaxOps=0),
    "C": dict(DetF={"f1", "f2"}, DetMu={"m1", "m2"}, DetSg={"g1", "g2"}, Prob={"p1", "p2"}, Im={"i1", "i2"}, Edp={"e1", "e2", "e3"}, CEdp={"e3"},
              Frag={"k1", "k2"}, Loss={"l1", "l2", "l3"}, Cg={"c1", "c2", "c3"}, St={"s1", "s2"}, Mutable={"f1", "m1", "m2", "g1", "l1", "l2"},
              MaxVer=3, MaxMem=3, Ready="\\<-InstC", Spare="\\<-NoSpare", StartMem="\\<-MemC", DropSet={"s1", "c1"}, ReadAll=True, Fates={1}),
}
INVS = ["NoStaleResult", "SubscriptionsExact", "OneHazardPerStructure"]

# Every single slip in passing changes on, and what has to notice it.
DEFECTS = {
    "A": [("clear", "im", "f", "crate"), ("clear", "im", "f", "drate"), ("clear", "im", "col", "drate"), ("clear", "edp", "p2", "lam"),
          ("notify", "prob", "mu", ""), ("notify", "im", "f", ""), ("self", "", "", ""), ("merge", "", "", "")],
    "B": [("clear", "cg", "cost", "annual"), ("clear", "cg", "delay", "delayedp"), ("clear", "st", "rem", "annual"), ("clear", "st", "reb", "annual"),
          ("clear", "st", "member", "annual"), ("notify", "cg", "cost", ""), ("notify", "edp", "im", ""), ("unsub", "st", "rem", "")],
}


def exhaustive(check, inst, level, workers=8, defects=()):
    """the specification itself: every interleaving up to `level` steps"""
    cfg = tlc.config(dict(INST[inst], MaxLevel=level, Defects="\\<-DefectsNow"), spec="SpecX", invariants=INVS, constraints=["Bound"])
    return tlc.run("MGRun", cfg, check.work, workers=workers, timeout=800, module_text=mgrun(defects))


def mgrun(defects):
    return "---- MODULE MGRun ----\nEXTENDS ModelGraphMC\nDefectsNow == {%s}\n====\n" % ", ".join("<<%s>>" % ", ".join('"%s"' % p for p in d) for d in defects)


def sequences(check, ops):
    """every sequence of at most `ops` operations on the standard model, with what holds afterwards"""
    cfg = tlc.config(dict(INST["C"], MaxOps=ops, MaxLevel=99, Defects=set()), spec="SpecP", invariants=INVS + ["Emit"])
    r = tlc.run("ModelGraphMC", cfg, check.work, timeout=600)
    if not r.ok:
        raise tlc.TLCError(tlc.tail(r.out))
    check.tlc(r)
    return r.lines()


ORDER = ["det", "frag", "loss", "prob", "im", "edp", "cg", "st"]
KIND = {"f": "det", "m": "det", "g": "det", "p": "prob", "i": "im", "e": "edp", "k": "frag", "l": "loss", "c": "cg", "s": "st"}
NOREF = {p: "-" for p in ("mu", "sg", "f", "im", "p1", "p2", "edp", "frag", "cost", "delay")}


def setup(seq, inst="C"):
    refs = {}
    for x, p, y in seq["setup"]:
        refs.setdefault(x, dict(NOREF))[p] = y
    k = INST[inst]
    ids = [x for s in ("DetF", "DetMu", "DetSg", "Prob", "Im", "Edp", "Frag", "Loss", "Cg", "St") for x in sorted(k[s])]
    ids.sort(key=lambda x: (ORDER.index(KIND[x[0]]), x))
    out = [make(KIND[x[0]], x, x, refs.get(x, NOREF), x in k["Mutable"]) for x in ids]
    return out + ["add %s %s" % (s, c) for s, c in seq["start"]], ids


def sweep(ids, kinds):
    return ["get %s all%s" % (x, " rate" if x[0] == "c" else "") for x in ids if x[0] in kinds]


def replay_sequence(exe, seq, ref, kinds, settle=True, **kw):
    """one sequence of operations with everything read before, between and after"""
    pre, ids = setup(seq)
    cmds = ["reset", SETTINGS] + pre
    held = list(ids)
    cmds += sweep(held, kinds)
    muts = INST["C"]["Mutable"]
    ops = commands(seq["ops"], muts)
    checks = {}
    for i, (s, c) in enumerate(zip(seq["ops"], ops)):
        checks[len(cmds)] = "EXC" if s["op"] == "add" and not s["ok"] else "ok"
        cmds.append(c)
        if s["op"] == "drop":
            held.remove(s["x"])
        if i < len(ops) - 1:
            cmds += sweep(held, kinds)
    at = len(cmds)
    cmds += sweep(held, kinds)
    cmds += ["members " + s for s in sorted(seq["mem"])]
    d = Driver(exe, **kw)
    out, err = d.batch(cmds)
    if err:
        d.forget()
        return cmds, len(out), cmds[len(out)], "DIED " + err, ""
    bad = None
    for i, want in checks.items():
        if not out[i].startswith(want):
            bad = cmds, i, cmds[i], out[i], want
            break
    if bad is None:
        for i in range(at, len(cmds)):
            w = cmds[i].split()
            if w[0] == "get":
                if w[1] not in seq["defs"]:
                    continue
                want = ref.answer(seq["defs"][w[1]], " ".join(w[2:]))
                if not same(out[i], want, rel=1e-7):
                    bad = cmds, i, cmds[i], out[i], want
                    break
            else:
                want = [x if x in held else "?" for x in seq["mem"][w[1]]]
                got = out[i].split() if out[i] != "ok" else []
                if got != want:
                    bad = cmds, i, cmds[i], out[i], " ".join(want)
                    break
    end = d.close()
    if bad is None and end:
        bad = cmds, len(cmds), "exit", "DIED " + end, ""
    return bad
