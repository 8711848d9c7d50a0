"""P22: Recorder.tla against the recorders of the scripting layer."""
import math, random
from vlib import tlc, py

INV = ["FilesHoldRuns", "Rectangular", "OneLinePerPoint", "Emit"]
PRELUDE = """
P = pyslat
M, S = P.LOGNORMAL_MU_TYPE, P.LOGNORMAL_SIGMA_TYPE
P.Set_Integration_Tolerance(0.02)
P.Set_Integration_Eval_Limit(512)
P.Set_Integration_Search_Limit(256)
P.Set_Integration_Method(P.INTEGRATION_METHOD.DIRECTED)
os.makedirs('sub')
def mu(a): return P.detfn(None, 'power law', [a, 1.1])
def sg(a): return P.detfn(None, 'power law', [a, 0.05])
def hazard(a): P.im('HAZARD_A', P.detfn(None, 'hyperbolic', [a, 29.8, 62.2]))
def frag(n, *m): P.fragfn_user(n, {'mu': M.MEAN_X, 'sd': S.SD_LN_X}, [[x, 0.4] for x in m])
def loss(n, *m): P.simplelossfn(n, {'mu': M.MEAN_X, 'sd': S.SD_LN_X}, [[x, 0.4] for x in m])
def dist(m): return P.MakeLogNormalDist(m, M.MEAN_X, 0.4, S.SD_LN_X)
DEM = {}
def demand(n, a, b=None):
    DEM[n] = (a, b)
    f = [P.probfn(None, 'lognormal', [M.MEAN_X, mu(x)], [S.SD_LN_X, sg(0.35)]) for x in (a, b) if x]
    P.edp(n, P.im.lookup('HAZARD_A'), *f)
def group(n, e, f):
    l = {'F1': ('L1', 'W1'), 'F2': ('L2', 'W2')}[f]
    P.compgroup(n, P.edp.lookup(e), P.fragfn.lookup(f), P.lossfn.lookup(l[0]), P.lossfn.lookup(l[1]), 3, 1.0, 1.0)
def st(): return P.structure.lookup('S')
D1 = P.detfn('D1', 'hyperbolic', [1221., 29.8, 62.2])
D2 = P.detfn('D2', 'power law', [2.0, 1.3])
Q1 = P.probfn('Q1', 'lognormal', [M.MEAN_X, mu(0.1)], [S.SD_LN_X, sg(0.5)])
Q2 = P.probfn('Q2', 'lognormal', [M.MEDIAN_X, mu(0.2)], [S.SD_LN_X, sg(0.4)])
hazard(1221.)
P.im.lookup('HAZARD_A').SetCollapse(dist(1.1))
P.im.lookup('HAZARD_A').SetDemolition(dist(0.7))
demand('E1', 0.05)
demand('E2', 0.03)
demand('E3', 0.04, 0.02)
frag('F1', 0.01, 0.02, 0.05)
frag('F2', 0.015, 0.06)
loss('L1', 0.1, 0.4, 1.2)
loss('L2', 0.2, 0.9)
loss('W1', 0.3, 0.7, 2.2)
loss('W2', 0.5, 0.6)
group('C1', 'E1', 'F1'); group('C2', 'E2', 'F2'); group('C3', 'E1', 'F2'); group('C4', 'E3', 'F1')
P.structure('S')
st().setRebuildCost(dist(40.0)); st().setDemolitionCost(dist(9.0))
for c in ('C1', 'C2', 'C3'):
    st().AddCompGroup(P.compgroup.lookup(c))
def target(t, o):
    k = {'detfn': P.detfn, 'probfn': P.probfn, 'imrate': P.im, 'collapse': P.im, 'collrate': P.im, 'edpim': P.edp, 'edprate': P.edp,
         'totalcost': P.structure, 'deagg': P.structure, 'pdf': P.structure, 'structcost': P.structure}.get(t, P.compgroup)
    return k.lookup(o)
def record(n, t, o, cols, at, form, file, append, norm):
    t, _, s = t.partition('.')
    op = {}
    if s: op['structcost-type'] = s
    if s == 'npv': op['discount-rate'] = 0.05
    if file != '-': op['filename'] = file
    elif len(n) % 2: op['filename'] = None
    if append or form == 'list': op['append'] = append
    if norm and t == 'pdf': op['normalise'] = True
    if at is not None:
        at = {'tuple': tuple, 'array': np.array, 'iterator': iter}.get(form, list)(at)
    before = P.recorder.lookup(n)
    try:
        P.MakeRecorder(n, t, target(t, o), op, cols, at)
    except ValueError:
        return P.recorder.lookup(n) is before or 'registered'
def both(f, x):
    return f(x)
NAMES = {'mean_x': ('Mean', 'mean'), 'mean_ln_x': ('MeanLn', 'mean_ln'), 'median_x': ('Median', 'median'), 'sd_ln_x': ('SD_ln', 'sd_ln'), 'sd_x': ('SD', 'sd')}
def combined(gs, x, c):
    m = v = 0
    for g in gs:
        g = P.compgroup.lookup(g)
        a, s = g.E_Cost_IM(x), g.SD_ln_Cost_IM(x)
        m += a
        v += a * a * (math.exp(s * s) - 1)
    s = math.sqrt(math.log(1 + v / (m * m)))
    return {'mean_x': m, 'sd_x': math.sqrt(v), 'sd_ln_x': s, 'mean_ln_x': math.log(m) - s * s / 2, 'median_x': m * math.exp(-s * s / 2)}[c]
def cell(t, c):
    q = c[0]
    t = t.partition('.')[0]
    o = target(t, c[1]) if len(c) > 1 and q != 'label' else None
    x = c[2] if len(c) > 2 else None
    if q == 'x' or q == 'label': return c[1]
    if q == 'value': return o.ValueAt(x)
    if q == 'moment':
        if c[3] in NAMES: return getattr(o, NAMES[c[3]][0])(x)
        return (o if t == 'edpim' else o.function()).X_at_exceedence(x, float(c[3]))
    if q == 'lambda': return o.getlambda(x)
    if q == 'pdem': return o.pDemolition(x)
    if q == 'pcol': return o.pCollapse(x)
    if q == 'rdem': return o.DemolitionRate()
    if q == 'rcol': return o.CollapseRate()
    if q == 'dsedp' or q == 'dsim':
        v = list(o.fragfn().pExceeded(x) if q == 'dsedp' else o.pDS_IM(x))
        return sum(v) if c[3] == 'sum' else v[int(c[3]) - 1]
    if q == 'dsrate': return list(o.Rate())[int(c[2]) - 1]
    if q in ('costedp', 'costim', 'delayedp', 'delayim'):
        f = {'costedp': 'Cost_EDP', 'costim': 'Cost_IM', 'delayedp': 'Delay_EDP', 'delayim': 'Delay_IM'}[q]
        return getattr(o, ('E_' if c[3] == 'mean_x' else 'SD_ln_') + f)(x)
    if q == 'costrate': return o.lambda_cost(x)
    if q == 'total': return getattr(o.TotalCost(x), NAMES[c[3]][1])()
    if q == 'deagg':
        d = o.DeaggregatedCost(x)[int(c[3])]
        return d.get_mean_X() if c[4] == 'mean' else d.get_sigma_lnX()
    if q == 'pdf': return o.pdf(x)
    if q == 'npdf': return o.pdf(x) / max(o.pdf(y) for y in c[3:])
    if q == 'annual': return getattr(o.AnnualCost(), NAMES[c[2]][1])()
    if q == 'npv': return o.E_cost(x, 0.05)
    if q == 'fate': return getattr(o.CostsByFate(x)[int(c[4])], NAMES[c[3]][1])()
    if q == 'sum': return combined(c[4:], x, c[3])
    raise KeyError(q)
import math
def tables(ts):
    return [[[cell(t, c) for c in row] for row in rows] for t, rows in ts]
def run(n):
    P.recorder.lookup(n).run()
def run_all():
    for r in P.recorder.all():
        r.run()
def held():
    r = {}
    for d, _, fs in os.walk('.'):
        for f in fs:
            if not (d == '.' and f in ('stdout', 'stderr')):
                r[os.path.relpath(os.path.join(d, f))] = open(os.path.join(d, f)).read()
    return r
"""
POINTS = {"im": [0.05, 0.3, 0.8, 1.5, 0.125], "edp": [0.004, 0.02, 0.05, 0.0, 0.0333333333], "cost": [0.5, 3.0, 0.07, 12.0, 1.25], "years": [1, 10, 50, 75, 3]}
WHOLE = [1, 2, 3, 5, 4]


def point(t, form, i):
    d = "years" if t == "structcost.npv" else "edp" if t in ("edprate", "dsedp", "costedp", "delayedp") else "cost" if t == "costrate" else "im"
    return (WHOLE if form == "whole" and d != "years" else POINTS[d])[int(i) - 1]


def change(w, i):
    r = random.Random(i)
    x = lambda a: a * r.uniform(0.7, 1.4)
    return {"hazard": "hazard(%r)" % x(1200.), "demand E1": "demand('E1', %r)" % x(0.05), "demand E2": "demand('E2', %r)" % x(0.03),
            "fragility F1": "frag('F1', %r, %r, %r)" % (x(0.01), 0.015 + x(0.015), x(0.06)), "fragility F2": "frag('F2', %r, %r)" % (x(0.012), x(0.06)),
            "cost": "loss('L1', %r, %r, %r)" % (x(0.1), x(0.5), x(1.5)), "delay": "loss('W2', %r, %r)" % (x(0.4), x(0.8)),
            "collapse": "P.im.lookup('HAZARD_A').SetCollapse(dist(%r))" % x(1.1), "demolition": "P.im.lookup('HAZARD_A').SetDemolition(dist(%r))" % x(0.6),
            "rebuild": "st().setRebuildCost(dist(%r))" % x(40.), "function D2": "D2 = P.detfn('D2', 'power law', [%r, 1.3])" % x(2.),
            "function Q2": "Q2 = P.probfn('Q2', 'lognormal', [M.MEAN_X, mu(%r)], [S.SD_LN_X, sg(0.45)])" % x(0.2)}[w]


def path(key):
    d, f = key.split("/", 1)
    f = f if "." in f.rsplit("/", 1)[-1] else f + ".csv"
    return f if d == "-" else d + "/" + f


def wanted(c, t, form):
    """a cell of the specification with its points"""
    at = {"x": (1,), "label": (), "npdf": range(2, len(c))}.get(c[0], () if t in ("structcost.annual", "collrate", "dsrate") else (2,))
    return [point(t, form, x) if i in at else x for i, x in enumerate(c)]


def number(a, b):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= 5.2e-6 * abs(b) + 1e-300


def same(tokens, want):
    if len(tokens) != len(want):
        return False
    for a, b in zip(tokens, want):
        if isinstance(b, str):
            if a != b:
                return False
        else:
            try:
                if not number(float(a), b):
                    return False
            except ValueError:
                return False
    return True


def differs(text, blocks):
    """the first line of text that is not of the tables"""
    lines = [l.split() for l in text.splitlines() if l.strip()]
    want = [row for b in blocks for row in b]
    for i, w in enumerate(want):
        if i >= len(lines) or not same(lines[i], w):
            return "line %d is %s where %s is due" % (i + 1, " ".join(lines[i]) if i < len(lines) else "missing", w)
    return "there is another line: " + " ".join(lines[len(want)]) if len(lines) > len(want) else None


def say(s):
    r = s["rec"][0] if s["rec"] else None
    if r:
        return "%s %s: %s of %s%s at %s (%s) to %s%s%s" % ("define" if s["op"] == "rec" else "define without points", r["n"], r["t"], r["o"], " columns %s" % r["cols"] if r["cols"] else "",
            [point(r["t"], r["form"], i) for i in r["at"]], r["form"], r["file"], " append" if r["app"] else "", " normalised" if r["norm"] else "")
    return ("%s %s %s" % (s["op"], s["a"], s["b"])).strip()


def steps(h):
    out = [[{"x": PRELUDE}]]
    for i, s in enumerate(h):
        op = s["op"]
        if op in ("rec", "norec"):
            r = s["rec"][0]
            cols = [c if not c[0].isdigit() else int(c) if "." not in c else float(c) for c in r["cols"]]
            at = None if op == "norec" or not r["at"] else [point(r["t"], r["form"], x) for x in r["at"]]
            l = [{"e": "record(%r, %r, %r, %r, %r, %r, %r, %r, %r)" % (r["n"], r["t"], r["o"], cols or None, at, r["form"], r["file"], r["app"], r["norm"])}]
        elif op in ("run", "all"):
            l = [{"x": "run(%r)" % s["a"] if op == "run" else "run_all()"},
                 {"e": "tables(%r)" % [[r["t"], [[wanted(c, r["t"], r["form"]) for c in row] for row in r["table"]["rows"]]] for r in s["runs"]]},
                 {"e": "held()"}]
        elif op == "dir":
            l = [{"x": "P.set_output_directory(%r)" % s["a"]}]
        elif op == "change":
            l = [{"x": change(s["a"], i)}]
        elif op == "group":
            l = [{"x": "group(%r, %r, %r)" % (s["a"], s["b"], {"C3": "F2", "C4": "F1"}[s["a"]])}]
        else:
            l = [{"x": "st().%s(P.compgroup.lookup(%r))" % ("AddCompGroup" if op == "add" else "RemoveCompGroup", s["a"])}]
        out.append(l)
    return out


def replay(z, h):
    groups = steps(h)
    out = z.run([s for g in groups for s in g])
    i, blocks = 0, {}
    for j, g in enumerate(groups):
        s = h[j - 1] if j else None
        a = out[i:i + len(g)]
        i += len(g)
        for e, x in zip(g, a):
            if x.died or x.err:
                return j, "%s: %s" % (e.get("e", e.get("x"))[:200], x.died or x.err)
        if s is None:
            continue
        if s["op"] == "rec" and a[0].v is not None:
            return j, "the definition is refused"
        if s["op"] == "norec" and a[0].v is not True:
            return j, "a recorder without points is %s" % ("accepted" if a[0].v is None else "refused, but " + a[0].v)
        if s["op"] in ("run", "all"):
            for r, t in zip(s["runs"], a[1].v):
                blocks[r["n"]] = [r["table"]["head"]] + t
            term = [blocks[r["n"]] for r in s["runs"] if r["file"] == "-"]
            d = differs(a[0].out, term)
            if d:
                return j, "on the terminal %s" % d
            files = {path(k): ns for k, ns in s["files"]}
            for f in sorted(set(files) | set(a[2].v)):
                if f not in files or f not in a[2].v:
                    return j, "the file %s %s" % (f, "is missing" if f in files else "is written")
                d = differs(a[2].v[f], [blocks[n] for n in files[f]])
                if d:
                    return j, "in the file %s (of runs %s) %s" % (f, files[f], d)
    return None


def run(check):
    tasks, n = [], 0
    for mode, d in (("each", 2), ("files", check.pick(7, 9))):
        r = tlc.check("Recorder", tlc.config(dict(Depth=d, Mode=mode), invariants=INV), check.work, timeout=800)
        check.tlc(r)
        tasks += list(r.lines())
    check.add("exhaustive_behaviours", len(tasks))
    per, n = tlc.simulate("Recorder", tlc.config(dict(Depth=check.pick(40, 60), Mode="random"), invariants=INV), check.work, check.pick(40, 800), check.pick(41, 61), check.seed)
    check.add("states", n)
    check.add("transitions", n)
    tasks += [h for p in per for h in p]
    zs = py.zygotes(check)
    tables = [0]

    def do(z, h):
        tables[0] += sum(len(s["runs"]) for s in h)
        w = replay(z, h)
        return w and ([say(s) for s in h[:w[0]]], w[1])
    for i, ops, why in py.each(zs, tasks, do):
        check.violation("after\n%s\n%s" % ("\n".join(ops[-14:]), why[:1500]), {"operations": ops, "why": why})
    for z in zs:
        z.close()
    check.add("traces_validated_against_impl", len(tasks))
    check.add("tables_compared", tables[0])
    check.sample({"behaviour": [say(s) for s in tasks[-1][:20]]})
