"""P20: PyRegistry.tla against the registries of the scripting layer."""
from vlib import tlc, py

KINDS = ["detfn", "probfn", "im", "edp", "fragfn", "lossfn", "compgroup", "structure", "recorder"]
NAMES = {"a": "'a'", "b": "'b'", "zero": "0", "one": "1", "empty": "''", "none": "'None'", "pair": "('a', 1)", "dash": "'-'", "-": "None"}
PRELUDE = """
P = pyslat
U = P.FUNCTION_TYPE
bdet = P.detfn(None, 'power law', [0.1, 1.5])
bsig = P.detfn(None, 'power law', [0.5, 0.0])
bhaz = P.detfn(None, 'hyperbolic', [1221., 29.8, 62.2])
M = [P.LOGNORMAL_MU_TYPE.MEAN_X, bdet]
S = [P.LOGNORMAL_SIGMA_TYPE.SD_LN_X, bsig]
bprob = P.probfn(None, 'lognormal', M, S)
bim = P.im(None, bhaz)
bedp = P.edp(None, bim, bprob)
OPT = {'mu': P.LOGNORMAL_MU_TYPE.MEAN_X, 'sd': P.LOGNORMAL_SIGMA_TYPE.SD_LN_X}
bfrag = P.fragfn_user(None, OPT, [[0.01, 0.3], [0.05, 0.4]])
bloss = P.simplelossfn(None, OPT, [[1.0, 0.3], [5.0, 0.4]])
bgroup = P.compgroup(None, bedp, bfrag, bloss, None, 2, 1.0, 1.0)
bstruct = P.structure(None)
bstruct.AddCompGroup(bgroup)
open('probfn.csv', 'w').write('x\\n\\n0.1 0.01 0.02 0.03\\n0.5 0.04 0.05 0.09\\n')
open('imfn.csv', 'w').write('x\\n\\n0.1 0.2\\n0.5 0.01\\n1.0 0.001\\n')
KIND = dict(detfn=P.detfn, probfn=P.probfn, im=P.im, edp=P.edp, fragfn=P.fragfn, lossfn=P.lossfn, compgroup=P.compgroup, structure=P.structure, recorder=P.recorder)
SUB = dict(fragfn=P.fragfn_user, lossfn=P.bilevellossfn, recorder=P.StructcostRecorder)
made = []
def number(o):
    for i, x in enumerate(made):
        if x[1] is o:
            return 'o%d' % (i + 1)
    return '-' if o is None else 'something else'
def keep(k, n, o):
    if o is None:
        raise AssertionError('made nothing')
    made.append((k, o, n))
def look(names):
    r = {}
    for k in KIND:
        r[k] = {}
        for t, n in names.items():
            o = number(KIND[k].lookup(n))
            if k in SUB and number(SUB[k].lookup(n)) != o:
                o = 'not the same from the subclass'
            r[k][t] = o
    nat = {}
    for i, (k, o, n) in enumerate(made):
        if k in ('edp', 'fragfn', 'compgroup'):
            nat['o%d' % (i + 1)] = number(KIND[k].lookup(o.function()))
    ids = {'o%d' % (i + 1): bool(o.id() == n and type(o.id()) == type(n)) for i, (k, o, n) in enumerate(made) if k not in ('structure', 'recorder')}
    return {'reg': r, 'native': nat, 'order': [number(x) for x in P.recorder.all()], 'ids': all(ids.values()),
            'base': [number(KIND[k].lookup(None)) for k in KIND] + [number(P.edp.lookup(bedp.function())), number(P.fragfn.lookup(bfrag.function())), number(P.compgroup.lookup(bgroup.function()))]}
"""
DEF = {
    ("detfn", "powerlaw"): "P.detfn({n}, 'power law', [0.1, 1.{v}])",
    ("detfn", "hyperbolic"): "P.detfn({n}, 'hyperbolic', [1221., 29.8, 62.{v}])",
    ("detfn", "linear"): "P.detfn({n}, 'linear', [[0., 1.], [0., 0.{v}]])",
    ("detfn", "loglog"): "P.detfn({n}, 'loglog', [[0.1, 1.], [0.2, 0.0{v}]])",
    ("probfn", "direct"): "P.probfn({n}, 'lognormal', M, S)",
    ("probfn", "import"): "P.ImportProbFn({n}, 'probfn')",
    ("im", "direct"): "P.im({n}, bhaz)",
    ("im", "import"): "P.ImportIMFn({n}, 'imfn')",
    ("edp", "simple"): "P.edp({n}, bim, bprob)",
    ("edp", "compound"): "P.edp({n}, bim, bedp, bedp)",
    ("fragfn", "direct"): "P.fragfn_user({n}, OPT, [[0.01, 0.3], [0.05, 0.{v}]])",
    ("lossfn", "simple"): "P.simplelossfn({n}, OPT, [[1.0, 0.3], [5.0, 0.{v}]])",
    ("lossfn", "bilevel"): "P.bilevellossfn({n}, [[5, 20, 2.0, 1.{v}, 0.3]])",
    ("compgroup", "direct"): "P.compgroup({n}, bedp, bfrag, bloss, None, {v}, 1.0, 1.0)",
    ("structure", "direct"): "P.structure({n})",
    ("recorder", "plain"): "P.MakeRecorder({n}, 'imrate', bim, dict(), None, [0.1, 0.2])",
    ("recorder", "collrate"): "P.MakeRecorder({n}, 'collrate', bim, dict(), None, None)",
    ("recorder", "structcost"): "P.MakeRecorder({n}, 'structcost', bstruct, {{'structcost-type': 'annual'}}, None, None)",
    ("recorder", "pdf"): "P.MakeRecorder({n}, 'pdf', bstruct, dict(), None, [0.1, 0.2])",
}
BAD = {
    ("detfn", "type"): "P.detfn({n}, 'cubic', [1., 2.])",
    ("probfn", "type"): "P.probfn({n}, 'normal', M, S)",
    ("probfn", "missing"): "P.probfn({n}, 'lognormal', [M[0], P.detfn.lookup('nobody')], S)",
    ("im", "missing"): "P.im({n}, P.detfn.lookup('nobody'))",
    ("edp", "missing"): "P.edp({n}, bim, P.probfn.lookup('nobody'))",
    ("fragfn", "options"): "P.fragfn_user({n}, dict(), [[0.01, 0.3]])",
    ("lossfn", "options"): "P.simplelossfn({n}, dict(), [[0.01, 0.3]])",
    ("compgroup", "missing"): "P.compgroup({n}, bedp, P.fragfn.lookup('nobody'), bloss, None, 1, 1.0, 1.0)",
    ("recorder", "noat"): "P.MakeRecorder({n}, 'imrate', bim, dict(), None, None)",
}


def steps(h):
    out = [{"x": PRELUDE}]
    for i, s in enumerate(h):
        n = NAMES[s["n"]]
        if s["op"] == "def":
            out.append({"x": "keep('%s', %s, %s)" % (s["k"], n, DEF[s["k"], s["how"]].format(n=n, v=i % 9 + 1))})
        elif s["op"] == "bad":
            out.append({"x": BAD[s["k"], s["how"]].format(n=n)})
        else:
            out.append({"x": "P.ClearCaches()"})
        out.append({"e": "look({%s})" % ", ".join("'%s': %s" % (t, x) for t, x in NAMES.items() if t != "-")})
    return out


def wrong(h, out):
    """the first step whose outcome is not the specified one"""
    if out[0].err or out[0].died:
        return 0, "the basic objects could not be made: %r" % out[0]
    made = []
    for i, s in enumerate(h):
        a, b = out[1 + 2 * i], out[2 + 2 * i]
        if a.died or b.died:
            return i, "the program ends: %r" % (a if a.died else b)
        if s["op"] == "bad" and not a.err:
            return i, "accepted, where it is to be refused"
        if s["op"] == "bad" and a.err.startswith("AssertionError"):
            return i, a.err
        if s["op"] != "bad" and a.err:
            return i, "refused: " + a.err
        if b.err:
            return i, "looking names up fails: " + b.err
        if s["op"] == "def":
            made.append(s["k"])
        for k in s["reg"]:
            for n in s["reg"][k]:
                if b.v["reg"][k][n] != s["reg"][k][n]:
                    return i, "%s %s is %s, where it is to be %s" % (k, NAMES[n], b.v["reg"][k][n], s["reg"][k][n])
        for k in b.v["reg"]:
            for n, o in b.v["reg"][k].items():
                if o != s["reg"].get(k, {}).get(n, "-"):
                    return i, "%s %s is %s, where nothing was defined" % (k, NAMES[n], o)
        named = {o for k in s["reg"] for o in s["reg"][k].values()}
        for o, got in b.v["native"].items():
            if got != (o if o in named else "-"):
                return i, "looking up what stands behind %s gives %s, where it is to be %s" % (o, got, o if o in named else "nothing")
        want = [s["reg"]["recorder"][n] for n in s["order"]] if "recorder" in s["reg"] else []
        if b.v["order"] != want:
            return i, "the recorders are %s, where they are to be %s" % (b.v["order"], want)
        if not b.v["ids"]:
            return i, "an object does not say its own name"
        if any(x != "-" for x in b.v["base"]):
            return i, "objects without a name are found: %s" % b.v["base"]
    return None


def run(check):
    inv = ["NamesAreLatest", "OneNameEach", "RecordersListed"]
    r = tlc.check("PyRegistry", tlc.config(dict(Kinds={"edp", "recorder"}, Names={"a", "b"}, Depth=check.pick(4, 5), Exhaustive=True), invariants=inv), check.work, timeout=700)
    check.tlc(r)
    hs = []
    # every pair of steps over all kinds, every triple over three kinds
    for kinds, names, depth in ((set(KINDS), {"a"}, 2), ({"edp", "fragfn", "probfn"}, {"a"}, 3)) + check.pick((), ((set(KINDS), {"a", "zero"}, 2), ({"compgroup", "recorder", "lossfn"}, {"a"}, 3))):
        k = set(kinds) | {"recorder"} if depth == 2 else set(kinds) | {"recorder"}
        r = tlc.check("PyRegistry", tlc.config(dict(Kinds=k, Names=names, Depth=depth, Exhaustive=True), invariants=inv + ["Emit"]), check.work, timeout=700)
        check.tlc(r)
        hs += r.lines()
    per, n = tlc.simulate("PyRegistry", tlc.config(dict(Kinds=set(KINDS), Names=set(NAMES) - {"-"}, Depth=60, Exhaustive=False), invariants=inv + ["Emit"]),
                          check.work, check.pick(8, 100), 61, check.seed)
    hs += [h for p in per for h in p]
    check.add("states", n)
    check.add("transitions", n)
    zs = py.zygotes(check)

    def do(z, h):
        out = z.run(steps(h))
        w = wrong(h, out)
        if w:
            i, why = w
            return ["%s %s %s %s" % (s["op"], s["k"], NAMES[s["n"]], s["how"]) for s in h[:i + 1]], why
    for i, ops, why in py.each(zs, hs, do):
        check.violation("after\n%s\n%s" % ("\n".join(ops[-12:]), why), {"operations": ops, "why": why})
    for z in zs:
        z.close()
    check.add("traces_validated_against_impl", len(hs))
    check.sample({"behaviour": ["%s %s %s %s" % (s["op"], s["k"], NAMES[s["n"]], s["how"]) for s in hs[-1][:20]]})
    check.assumptions.append("names are hashable values other than None")
