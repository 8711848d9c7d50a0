"""P30: Imports.tla against the import functions of the scripting layer and the language."""
from vlib import tlc, py
from vlib.terms import evaluate
from vlib.driver import close

PRELUDE = """
P = pyslat
def interpret(text):
    I = SlatInterpreter
    lexer = I.slatLexer(I.InputStream(text))
    parser = I.slatParser(I.CommonTokenStream(lexer))
    parser._errHandler = I.BailErrorStrategy()
    I.ParseTreeWalker().walk(I.SlatInterpreter(), parser.script())
"""


def name(f):
    return f if "." in f else f + ".csv"


def text(s):
    lay = s["lay"]
    num = lambda t: ("%r" % evaluate(t)) if lay["form"] == "%r" else lay["form"] % evaluate(t)
    lines = [lay["lead"] + lay["sep"].join(num(t) for t in [r["x"]] + r["l"]) for r in s["t"]]
    if lay["blank"]:
        lines.insert(1, "")
    return "\n".join(list(s["head"]) + lines) + ("\n" if lay["last"] else "")


def steps(h):
    out = [({"x": PRELUDE}, None)]
    for s in h:
        if s["op"] == "write":
            out.append(({"x": "open(%r, 'w').write(%r)" % (name(s["f"]), text(s))}, None))
        elif s["op"] == "import":
            fn = {"im": "ImportIMFn", "probfn": "ImportProbFn"}[s["k"]]
            if s["how"] == "call":
                out.append(({"x": "P.%s(%r, %r)" % (fn, s["n"], s["f"])}, None))
            else:
                out.append(({"x": "interpret('import%s %s %s;')" % ({"im": "imfn", "probfn": "probfn"}[s["k"]], s["n"], s["f"] if "." in s["f"] else "./" + s["f"])}, None))
        else:
            x = evaluate(s["x"])
            o = "P.%s.lookup(%r)" % (s["k"], s["n"])
            e = "[%s.getlambda(%r)]" % (o, x) if s["k"] == "im" else "[{0}.Median({1!r}), {0}.SD_ln({1!r}), {0}.Mean({1!r})]".format(o, x)
            out.append(({"e": e}, [evaluate(t) for t in s["v"]]))
    return out


def try_one(z, h):
    seq = steps(h)
    for i, (a, (c, want)) in enumerate(zip(z.run([c for c, w in seq]), seq)):
        bad = None
        if a.err or a.died:
            bad = repr(a)
        elif want is not None and not (len(a.v) == len(want) and all(close(x, y, 1e-6, 1e-12) for x, y in zip(a.v, want))):
            bad = "%r, which has to be %r" % (a.v, want)
        if bad:
            return [c for c, w in seq[1:i + 1]], bad
    return None


def judge(z, h):
    r = try_one(z, h)
    if not r:
        return None
    i = 0
    while i < len(h):      # what can be left out
        g = h[:i] + h[i + 1:]
        q = None
        try:
            q = try_one(z, g)
        except KeyError:
            pass
        if q and q[1].split(",")[-1] == r[1].split(",")[-1]:
            h, r = g, q
        else:
            i += 1
    return "after\n%s\n%s" % ("\n".join(str(list(c.values())[0])[:300] for c in r[0]), r[1]), {"steps": r[0], "why": r[1]}


def run(check):
    check.tlc(tlc.check("Imports", tlc.config(dict(Depth=0), spec="SpecSmall", invariants=["SmallOk"]), check.work))
    per, n = tlc.simulate("Imports", tlc.config(dict(Depth=30), invariants=["Emit"]), check.work, check.pick(40, 1000), 60, check.seed)
    check.add("states", n)
    check.add("transitions", n)
    hs = [h for p in per for h in p]
    zs = py.zygotes(check, interpreter=True)
    for i, what, rep in py.each(zs, hs, judge):
        check.violation(what, rep)
    for z in zs:
        z.close()
    check.add("traces_validated_against_impl", len(hs))
    check.sample({"history": [str(list(c.values())[0])[:200] for c, w in steps(hs[-1])[1:]]})
    check.assumptions += ["at least two lines, and at least two analyses at every intensity that did not collapse", "answers are compared with a relative tolerance of 1e-6"]
