"""P21, P28: PyModel.tla against the scripting layer, with the library as reference."""
import json, math, random, threading
from vlib import tlc, py, build
from vlib.driver import Driver, tokens, close

INV = ["FinalDefinitions", "Unchanged", "OneHazard", "NamesCurrent", "NoCycles"]
NAMES = {"a": "a", "b": "b"}
SETTINGS = (0.02, 512, 256, 4)
PRELUDE = """
P = pyslat
MU = {'mean': P.LOGNORMAL_MU_TYPE.MEAN_X, 'median': P.LOGNORMAL_MU_TYPE.MEDIAN_X, 'meanln': P.LOGNORMAL_MU_TYPE.MEAN_LN_X}
SD = {'sd': P.LOGNORMAL_SIGMA_TYPE.SD_X, 'sdln': P.LOGNORMAL_SIGMA_TYPE.SD_LN_X}
IMS = [0.05, 0.3, 0.8]
EDPS = [0.004, 0.02, 0.05]
COSTS = [0.5, 3.0]
H = {}
R = {}
P.Set_Integration_Tolerance(0.02)
P.Set_Integration_Eval_Limit(512)
P.Set_Integration_Search_Limit(256)
P.Set_Integration_Method(P.INTEGRATION_METHOD.DIRECTED)
def dist(mt, m, st, s):
    return P.MakeLogNormalDist(m, MU[mt], s, SD[st])
def five(d):
    return [d.mean(), d.sd_ln(), d.sd(), d.mean_ln(), d.median()]
def five_(d):
    return [d.get_mean_X(), d.get_sigma_lnX(), d.get_sigma_X(), d.get_mu_lnX(), d.get_median_X()]
def get(k, o, q, many):
    r = []
    if k == 'det':
        r += [o.ValueAt(x) for x in IMS + [2.0]]
    elif q == 'mom':
        if many and k == 'edp':
            c = [o.Mean(IMS), o.MeanLn(IMS), o.Median(IMS), o.SD_ln(IMS), o.SD(IMS)]
            assert all(type(x) == list for x in c)
            r += [c[j][i] for i in range(3) for j in range(5)]
        else:
            r += [f(x) for x in IMS for f in (o.Mean, o.MeanLn, o.Median, o.SD_ln, o.SD)]
    elif q == 'pex':
        r += [o.function().P_exceedence(x, y) for x in IMS for y in EDPS]
        r += [o.X_at_exceedence(x, p) for x in IMS for p in (0.1, 0.8)]
    elif k == 'im':
        if q == 'lam':
            for y in (o.getlambda(IMS) if many else [o.getlambda(x) for x in IMS]):
                r += [y, None]
        elif q == 'probs':
            if many:
                for t in zip(o.pCollapse(IMS), o.pDemolition(IMS), o.pRepair(IMS)):
                    r += t
            else:
                r += [f(x) for x in IMS for f in (o.pCollapse, o.pDemolition, o.pRepair)]
        elif q == 'crate':
            r += [o.CollapseRate()]
        elif q == 'drate':
            r += [o.DemolitionRate()]
    elif k == 'edp':
        r += o.getlambda(EDPS) if many else [o.getlambda(x) for x in EDPS]
    elif k == 'frag':
        for x in EDPS:
            r += list(o.pExceeded(x)) + list(o.function().pHighest(x))
        r += [o.size()]
        assert o.size() == o.function().n_states()
    elif k == 'loss':
        r += [o.function().n_states()]
    elif k == 'cg':
        if q == 'costedp':
            for x in EDPS:
                r += [o.E_Cost_EDP(x), o.SD_ln_Cost_EDP(x), None, None]
        elif q == 'delayedp':
            for x in EDPS:
                r += [o.E_Delay_EDP(x), o.SD_ln_Delay_EDP(x), None]
        elif q in ('ecostim', 'sdcostim', 'edelayim', 'sddelayim'):
            f = {'ecostim': o.E_Cost_IM, 'sdcostim': o.SD_ln_Cost_IM, 'edelayim': o.E_Delay_IM, 'sddelayim': o.SD_ln_Delay_IM}[q]
            r += [f(x) for x in IMS]
        elif q == 'pds':
            for x in IMS:
                r += list(o.pDS_IM(x))
        elif q == 'annual':
            r += [o.E_annual_cost()]
        elif q == 'years':
            r += [o.E_cost(1, 0.05), o.E_cost(50, 0.06)]
        elif q == 'lamcost':
            r += [o.lambda_cost(x) for x in COSTS]
        elif q == 'rate':
            r += list(o.Rate())
    elif k == 'st':
        if q == 'cost':
            for x in IMS:
                r += five(o.Cost(x, False)) + five(o.Cost(x, True))
        elif q == 'total':
            for x in IMS:
                r += five(o.TotalCost(x))
        elif q == 'fate':
            for x in IMS:
                for d in o.CostsByFate(x):
                    r += five(d)
        elif q == 'deagg':
            for x in IMS:
                for d in o.DeaggregatedCost(x):
                    r += five_(d)
        elif q == 'pdf':
            r += [o.pdf(x) for x in IMS]
        elif q == 'annual':
            r += five(o.AnnualCost())
        elif q == 'years':
            r += [o.E_cost(1, 0.05), o.E_cost(50, 0.06)] + [o.E_cost(x, 0.03) for x in (1, 10, 75)]
        elif q == 'set':
            r += five(o.getRebuildCost()) + five(o.getDemolitionCost())
    return r
def number(o):
    for i, x in H.items():
        if x is o:
            return i
    return 0 if o is None else -1
AT = {'imrate': IMS, 'collapse': IMS, 'edprate': EDPS, 'edpim': IMS, 'dsedp': EDPS, 'dsim': IMS, 'costedp': EDPS, 'costim': IMS, 'delayedp': EDPS,
      'delayim': IMS, 'costrate': COSTS, 'totalcost': IMS, 'pdf': IMS, 'deagg': IMS, 'detfn': IMS, 'probfn': IMS, 'structcost': IMS}
def record(n, t, o):
    t, _, s = t.partition('.')
    op = {'filename': 'rec%s' % n}
    if s:
        op['structcost-type'] = s
    if s == 'npv':
        op['discount-rate'] = 0.05
    at = [1, 10, 50] if s == 'npv' else None if s == 'annual' else AT.get(t)
    R[n] = P.MakeRecorder(n, t, o, op, None, at)
def output(n):
    try:
        R[n].run()
    except Exception as e:
        return 'raises ' + type(e).__name__
    return open('rec%s.csv' % n).read()
def same(n, t, o):
    a = output(n)
    record('fresh', t, o)
    b = output('fresh')
    return [a == b, a, b]
"""


class Variations:
    """what the variations of the specification stand for, to the scripting layer and to the library"""
    def __init__(self, seed):
        self.seed = seed

    def rng(self, *a):
        return random.Random("%s %s" % (self.seed, a))

    def det(self, v):
        """expression of pyslat.detfn's type and parameters, and slatdrv's"""
        role, i = v[0], int(v[1:])
        r = self.rng("det", v)
        if role == "f":
            if i % 3:
                p = [r.uniform(800, 2000), r.uniform(25, 35), r.uniform(55, 70)]
                return "'hyperbolic', %r" % p, "nlh %r %r %r" % tuple(p)
            x = [0.01, 0.1, 0.4, 1.0, 3.0]
            y = [q * r.uniform(0.8, 1.2) for q in (0.3, 0.05, 0.01, 0.002, 0.0002)]
            return "'loglog', %r" % [x, y], "loglog 5 %s 5 %s" % (" ".join(map(repr, x)), " ".join(map(repr, y)))
        if role == "m" and i % 2:
            p = [r.uniform(0.02, 0.08), r.uniform(0.9, 1.4)]
        elif role == "s":
            p = [r.uniform(0.3, 0.6), r.uniform(0.0, 0.1)]
        elif role == "a":
            p = [r.uniform(0.005, 0.03), r.uniform(0.9, 1.2)]
        else:
            x = [0.0, 0.5, 1.5, 4.0]
            y = [q * r.uniform(0.9, 1.1) for q in ((0.001, 0.03, 0.08, 0.12) if role == "m" else (-7.0, -3.9, -2.8, -2.1))]
            return "'linear', %r" % [x, y], "lin 4 %s 4 %s" % (" ".join(map(repr, x)), " ".join(map(repr, y)))
        return "'power law', %r" % p, "plc %r %r" % tuple(p)

    PROB = {"mean": ("mean", "sdln"), "median": ("median", "sdln"), "meanln": ("meanln", "sdln"), "meansd": ("mean", "sd")}

    def dist(self, what, i):
        """pyslat's and slatdrv's spelling of one distribution"""
        r = self.rng(what, i)
        kind = r.choice(["mean_sdln", "med_sdln", "mu_sdln", "mean_sd"])
        m = {"col": (0.9, 2.0), "dem": (0.4, 1.0), "reb": (10, 20), "dmo": (3, 8)}[what]
        m, s = r.uniform(*m), r.uniform(0.25, 0.5)
        return self.spell(kind, m, s)

    @staticmethod
    def spell(kind, m, s):
        mu = math.log(m) if kind == "mu_sdln" else m
        sd = m * s if kind == "mean_sd" else s
        t = {"mean_sdln": ("mean", "sdln"), "med_sdln": ("median", "sdln"), "mu_sdln": ("meanln", "sdln"), "mean_sd": ("mean", "sd")}[kind]
        return "dist(%r, %r, %r, %r)" % (t[0], mu, t[1], sd), "%s %r %r" % (kind, mu, sd), t, (mu, sd)

    def states(self, v):
        return 2 if v == "6" else 3

    def frag(self, v):
        r = self.rng("frag", v)
        kind = r.choice(["mean_sdln", "med_sdln", "mu_sdln"])
        base = sorted(r.uniform(0.004, 0.06) for _ in range(self.states(v)))
        return self.scalars(kind, [(m * (1 + 0.3 * i), r.uniform(0.3, 0.5)) for i, m in enumerate(base)])

    def scalars(self, kind, ms):
        d = [self.spell(kind, m, s) for m, s in ms]
        t = d[0][2]
        return ("{'mu': MU[%r], 'sd': SD[%r]}" % t, repr([list(x[3]) for x in d]), "%d %s" % (len(d), " ".join(x[1] for x in d)))

    def loss(self, v):
        """pyslat's and slatdrv's constructors"""
        r = self.rng("loss", v)
        n = self.states(v)
        if v in ("3", "5"):
            b = [[r.randint(1, 6), r.randint(12, 30), m * r.uniform(1, 2), m * r.uniform(0.3, 0.9), r.uniform(0.2, 0.5)] for m in (0.3, 1.0, 3.0)[:n]]
            text = "P.bilevellossfn(%%s, %r)" % b if r.random() < 0.5 else "P.bilevellossfn(%%s, [P.MakeBiLevelLoss(*x) for x in %r])" % b
            return text, "bloss %%s %d %s" % (n, " ".join("%d %d %r %r %r" % tuple(x) for x in b))
        kind = r.choice(["mean_sdln", "med_sdln", "mu_sdln", "mean_sd"])
        ms = [(m * r.uniform(0.7, 1.4), r.uniform(0.3, 0.6)) for m in (0.1, 0.6, 2.0)[:n]]
        if kind == "mu_sdln":
            ms[1] = (1.0, ms[1][1])    # whose logarithm is zero
        o, d, s = self.scalars(kind, ms)
        return "P.simplelossfn(%%s, %s, %s)" % (o, d), "sloss %%s %s" % s

    def group(self, v):
        r = self.rng("cg", v)
        return r.choice([1, 4, 10, 25]), r.choice([1.0, 0.8, 1.25]), r.choice([1.0, 0.5, 2.0])

    def make(self, x, o):
        """statement that makes object x of the specification, numbered o"""
        k, v, n = x["k"], x["v"], "None" if x["n"] == "-" else repr(x["n"])
        ref = {p: "H[%d]" % i if i else "None" for p, i in x["ref"].items()}
        if k == "det":
            e = "P.detfn(%s, %s)" % (n, self.det(v)[0])
        elif k == "prob":
            mt, st = self.PROB[v]
            e = "P.probfn(%s, 'lognormal', [MU[%r], %s], [SD[%r], %s])" % (n, mt, ref["mu"], st, ref["sg"])
        elif k == "im":
            e = "P.im(%s, %s)" % (n, ref["f"])
        elif k == "edp":
            if x["reb"]:    # from two demands
                e = "P.edp(%s, %s, H[%d], H[%d])" % (n, ref["im"], x["reb"], x["dmo"])
            elif x["ref"]["p2"]:
                e = "P.edp(%s, %s, %s, %s)" % (n, ref["im"], ref["p1"], ref["p2"])
            else:
                e = "P.edp(%s, %s, %s)" % (n, ref["im"], ref["p1"])
        elif k == "frag":
            e = "P.fragfn_user(%s, %s, %s)" % ((n,) + self.frag(v)[:2])
        elif k == "loss":
            e = self.loss(v)[0] % n
        elif k == "cg":
            c = self.group(v)
            e = "P.compgroup(%s, %s, %s, %s, %s, %d, %r, %r)" % ((n, ref["edp"], ref["frag"], ref["cost"], ref["delay"]) + c)
        else:
            e = "P.structure(%s)" % n
        out = "H[%d] = %s" % (o, e)
        for w, f in (("reb", "setRebuildCost"), ("dmo", "setDemolitionCost")):
            if k == "st" and x[w]:
                out += "; H[%d].%s(%s)" % (o, f, self.dist(w, x[w])[0])
        return out


class Reference:
    """answers of the library's objects made from a definition"""
    memo, lock = {}, threading.Lock()

    def __init__(self, exe, var):
        self.exe, self.var, self.d = exe, var, None

    def build(self, d, cmds, names):
        key = json.dumps(d, sort_keys=True)
        if key in names:
            return names[key]
        k = d["k"]
        if k == "none":
            return "-"
        sub = {p: self.build(d[p], cmds, names) for p in d if isinstance(d[p], dict)}
        mem = [self.build(x, cmds, names) for x in d["mem"]] if k == "st" else []
        n = names[key] = "r%d" % len(names)
        v, var = d["id"], self.var
        if k == "det":
            cmds.append("det %s %s" % (n, var.det(v)[1]))
        elif k == "prob":
            mt, st = var.PROB[v]
            cmds.append("prob %s %s %s %s %s" % (n, sub["mu"], mt, sub["sg"], st))
        elif k == "im":
            cmds.append("im %s %s" % (n, sub["f"]))
            for w in ("col", "dem"):
                if d[w]:
                    cmds.append("%s %s %s" % (w, n, var.dist(w, d[w])[1]))
        elif k == "edp":
            cmds.append("cedp %s %s %s %s" % (n, sub["im"], sub["p1"], sub["p2"]) if d["p2"]["k"] != "none" else "edp %s %s %s" % (n, sub["im"], sub["p1"]))
        elif k == "frag":
            cmds.append("frag %s %s" % (n, var.frag(v)[2]))
        elif k == "loss":
            cmds.append(var.loss(v)[1] % n)
        elif k == "cg":
            cmds.append("cg %s %s %s %s %s %d %r %r" % ((n, sub["edp"], sub["frag"], sub["cost"], sub["delay"]) + var.group(v)))
        else:
            cmds.append("st " + n)
            for w, c in (("reb", "rebuild"), ("dmo", "demo")):
                if d[w]:
                    cmds.append("%s %s %s" % (c, n, var.dist(w, d[w])[1]))
            cmds += ["add %s %s" % (n, x) for x in mem]
        return n

    def answer(self, d, q):
        key = (json.dumps(d, sort_keys=True), q)
        with self.lock:
            if key in self.memo:
                return self.memo[key]
        if d["k"] == "cg" and q == "years":
            a = self.answer(d, "annual")
            r = [(1 - math.exp(-l * t)) / l * a[0] for t, l in ((1, 0.05), (50, 0.06))] if isinstance(a, list) else a
        else:
            if self.d is None:
                self.d = Driver(self.exe)
            cmds = ["reset", "settings %r %d %d %d" % SETTINGS]
            n = self.build(d, cmds, {})
            out, err = self.d.batch(cmds + ["get %s %s" % (n, q)])
            if err:
                self.d.forget()
                self.d = None
                r = "DIED " + err
            else:
                r = [x for x in tokens(out[-1].split("=", 1)[1]) if not isinstance(x, str)] if "=" in out[-1] else out[-1]
        with self.lock:
            self.memo[key] = r
        return r

    def close(self):
        if self.d:
            self.d.close()


def agrees(got, want):
    if not isinstance(want, list) or not isinstance(got, list) or len(got) != len(want):
        return False
    for a, b in zip(got, want):
        if a is not None and not (a == b or (a != a and b != b) or close(a, b, 1e-7, 1e-12)):
            return False
    return True


def steps(h, start, var, forget, lists):
    """what to run for each step: list of lists of steps; forget: let go of what has been replaced"""
    out = [[{"x": PRELUDE}] + [{"x": var.make(x, i + 1)} for i, x in enumerate(start)]]
    for i, x in enumerate(start):
        if x["k"] == "st":
            out[0] += [{"x": "H[%d].AddCompGroup(H[%d])" % (i + 1, g)} for g in x["mem"]]
    for j, s in enumerate(h):
        op, o = s["op"], s["o"]
        if op == "def":
            l = [{"x": var.make(s["obj"], o) + ("; del H[%d]" % s["dead"] if forget and s["dead"] else "")}]
        elif op in ("col", "dem", "reb", "dmo"):
            f = {"col": "SetCollapse", "dem": "SetDemolition", "reb": "setRebuildCost", "dmo": "setDemolitionCost"}[op]
            l = [{"x": "H[%d].%s(%s)" % (o, f, var.dist(op, s["n"])[0])}]
        elif op in ("add", "badadd"):
            l = [{"x": "H[%d].AddCompGroup(H[%d])" % (o, s["n"])}]
        elif op == "rem":
            l = [{"x": "H[%d].RemoveCompGroup(H[%d])" % (o, s["n"])}]
        elif op == "clear":
            l = [{"x": "P.ClearCaches()"}]
        elif op == "who":
            k = len(s["who"])
            l = [{"e": "[number(H[%d].get_IM())%s]" % (o, ", number(H[%d].fragfn()), H[%d].size()" % (o, o) if k == 3 else "")}]
        elif op == "record":
            l = [{"x": "record(%d, %r, H[%d])" % (s["n"], s["obj"]["v"], o)}]
        elif op == "run":
            l = [{"e": "same(%d, %r, H[%d])" % (s["n"], s["obj"]["v"], o)}]
        else:
            l = []
        for a in s["asks"]:
            l += [{"e": "get(%r, H[%d], %r, %r)" % (a[2]["k"], a[0], a[1], lists and (j + a[0]) % 2 == 1)}]
        out.append(l)
    return out


def say(s):
    x = s["obj"]
    if s["op"] == "def":
        return "o%d: %s %s (variation %s) of %s%s" % (s["o"], x["k"], x["n"], x["v"], {p: "o%d" % i for p, i in x["ref"].items() if i}, " replaces o%d" % s["dead"] if s["dead"] else "")
    if s["op"] == "ask":
        return "ask o%d for %s" % (s["asks"][0][0], s["asks"][0][1])
    return "%s o%d %s" % (s["op"], s["o"], s["n"] or x["v"])


def anew(z, d, q, var, memo={}):
    key = json.dumps([d, q], sort_keys=True)
    if key not in memo:
        memo[key] = anew_(z, d, q, var)
    return memo[key]


def anew_(z, d, q, var):
    """what the scripting layer answers about a model with just this definition"""
    out, made = [{"x": PRELUDE}], {}

    def make(d):
        if d["k"] == "none":
            return 0
        key = json.dumps(d, sort_keys=True)
        if key not in made:
            ref = {p: make(d[p]) for p in d if isinstance(d[p], dict)}
            mem = [make(x) for x in d["mem"]] if d["k"] == "st" else []
            i = made[key] = len(made) + 1
            x = _blank(d["k"], "-", d["id"], mem, d.get("reb", 0), d.get("dmo", 0), **ref)
            out.append({"x": var.make(x, i)})
            for w, f in (("col", "SetCollapse"), ("dem", "SetDemolition")):
                if d.get(w):
                    out.append({"x": "H[%d].%s(%s)" % (i, f, var.dist(w, d[w])[0])})
            out.extend({"x": "H[%d].AddCompGroup(H[%d])" % (i, g)} for g in mem)
        return made[key]
    i = make(d)
    if q:
        out.append({"e": "get(%r, H[%d], %r, False)" % (d["k"], i, q)})
    a = z.run(out)
    bad = [str(x.died or x.err) for x in a if x.died or x.err]
    return bad[0] if bad else a[-1].v


def replay(z, h, start, var, ref, forget, direct):
    """direct: what matters is what the library answers, not what the scripting layer answers about the same model defined at once"""
    groups = steps(h, start, var, forget, direct)
    out = z.run([s for g in groups for s in g])
    i = 0
    for j, g in enumerate(groups):
        s = h[j - 1] if j else None
        asks = s["asks"] if s else []
        for n, e in enumerate(g):
            a = out[i]
            i += 1
            ask = n - len(g) + len(asks)
            bad = "the program ends: " + str(a.died) if a.died else a.err
            if s is not None and s["op"] == "badadd":
                if not direct and not (bad or "").startswith("ValueError"):
                    return None
                if direct and not (bad or "").startswith("ValueError"):
                    return j, "adding the group is %s, where a ValueError is due" % (bad or "accepted")
                continue
            if bad:
                if s is not None and not direct and (isinstance(anew(z, asks[ask][2], asks[ask][1], var), str) if ask >= 0 else s["op"] == "def" and isinstance(anew(z, s["def"], None, var), str)):
                    return None
                return j, "%s fails: %s" % (e.get("e") or e["x"][-200:], bad)
            if s is None:
                continue
            if s["op"] == "who" and a.v != s["who"]:
                return j, "o%d is made of %s, where %s is due" % (s["o"], a.v, s["who"])
            if s["op"] == "run" and not a.v[0]:
                return j, "recorder %d writes\n%swhere a new one writes\n%s" % (s["n"], a.v[1], a.v[2])
            if ask >= 0:
                q = asks[ask]
                want = ref.answer(q[2], q[1])
                if not agrees(a.v, want) and (direct or not agrees(a.v, anew(z, q[2], q[1], var))):
                    return j, "%s of o%d: %s, where %s is due" % (q[1], q[0], a.v, want)
    return None


def run(check):
    p21 = check.prop == "P21"
    exe = build.program("slatdrv", ["slatdrv.cpp"])
    base = dict(Names={"a", "b"}, Vars={"1", "2", "3", "4", "5", "6"}, Focus=set(), Empty=False)
    all_ops = {"im", "edp", "frag", "cost", "delay", "cg", "cg2", "col", "dem", "add"}
    tasks = []    # (history, start)
    # every sequence of redefinitions of a full model
    depth = check.pick(3 if p21 else 2, 4 if p21 else 3)
    focus = all_ops if p21 else {"im", "edp", "frag", "cost", "cg2", "add"}
    r = tlc.check("PyModel", tlc.config(dict(base, Depth=depth, Exhaustive=True, Focus=focus), spec="SpecAll", invariants=INV + ["EmitAll"]), check.work, timeout=800)
    check.tlc(r)
    n_all = 0
    hs = {json.dumps(x["ops"]): x for x in r.lines()}
    for key, x in hs.items():
        h = x["ops"]
        if len(h) < depth:
            continue
        n_all += 1
        tasks.append((h, hs))
    per, n = tlc.simulate("PyModel", tlc.config(dict(base, Depth=check.pick(45, 60), Exhaustive=False), spec="SpecRandom", invariants=INV + ["EmitRandom"]),
                          check.work, check.pick(12, 150) if p21 else check.pick(10, 120), 61, check.seed)
    per2, n2 = tlc.simulate("PyModel", tlc.config(dict(base, Depth=check.pick(60, 80), Exhaustive=False, Empty=True), spec="SpecRandom", invariants=INV + ["EmitRandom"]),
                            check.work, check.pick(3, 40) if p21 else check.pick(10, 120), 81, check.seed + 50)
    check.add("states", n + n2)
    check.add("transitions", n + n2)
    seen = set()
    for p, full in ((per, True), (per2, False)):
        for b in p:
            for x in b:
                k = json.dumps(x["ops"])
                if k not in seen:
                    seen.add(k)
                    tasks.append((x["ops"], full))
    zs = py.zygotes(check)
    var = Variations(check.seed)
    refs = {z.dir: Reference(exe, var) for z in zs}
    asked = [0]

    def do(z, t):
        h, how = t
        i = len(h) + sum(len(json.dumps(s)) for s in h)
        if isinstance(how, dict):    # ask everything: always at the end, and before in different ways
            h = [dict(s) for s in h]
            for j in range(len(h)):
                if j == len(h) - 1 or (i >> j) & 1:
                    x = how[json.dumps(t[0][:j + 1])]
                    h[j]["asks"] = [[o, q, d] for o, d in x["defs"] for q in FAMILIES[d["k"]]]
            # and before anything happens
            if i % 2:
                h.insert(0, {"op": "ask", "o": 0, "obj": None, "n": 0, "who": [], "asks": [[o, q, d] for o, d in how["[]"]["defs"] for q in FAMILIES[d["k"]]], "dead": 0})
        asked[0] += sum(len(s["asks"]) for s in h)
        w = replay(z, h, START if how is not False else START[:13], var, refs[z.dir], i % 3 == 0, not p21)
        if w:
            j, why = w
            return [say(s) for s in h[:j]], why
    for i, ops, why in py.each(zs, tasks, do):
        check.violation("after\n%s\n%s" % ("\n".join(ops[-14:]), why[:1500]), {"operations": ops, "why": why})
    for z in zs:
        z.close()
        refs[z.dir].close()
    check.add("traces_validated_against_impl", len(tasks))
    check.add("sequences_of_redefinitions", n_all)
    check.add("answers_compared", asked[0])
    check.sample({"behaviour": [say(s) for s in tasks[-1][0][:20]]})


FAMILIES = {"im": ["lam", "probs", "crate", "drate"], "edp": ["lam", "mom", "pex"],
            "cg": ["costedp", "delayedp", "ecostim", "sdcostim", "edelayim", "sddelayim", "pds", "annual", "lamcost", "rate", "years"],
            "st": ["cost", "total", "fate", "deagg", "pdf", "annual", "years", "set"]}


def _blank(k, n, v, mem=(), reb=0, dmo=0, **ref):
    return {"k": k, "n": n, "v": v, "ref": dict({p: 0 for p in ("mu", "sg", "f", "im", "p1", "p2", "edp", "frag", "cost", "delay")}, **ref), "mem": list(mem), "reb": reb, "dmo": dmo}


# what the specification starts from (Base and Full)
START = [_blank("det", "-", v) for v in ("f1", "f2", "f3", "m1", "m2", "l1", "s1", "s2", "a1")] + \
    [_blank("prob", "-", "mean", mu=4, sg=7), _blank("prob", "-", "median", mu=5, sg=8), _blank("prob", "-", "meanln", mu=6, sg=7), _blank("prob", "-", "meansd", mu=4, sg=9),
     _blank("im", "a", "1", f=1), _blank("edp", "a", "1", im=14, p1=10), _blank("frag", "a", "1"), _blank("loss", "a", "1"), _blank("loss", "b", "2"),
     _blank("cg", "a", "1", edp=15, frag=16, cost=17, delay=18), _blank("st", "a", "1", mem=[19], reb=1, dmo=1)]
