"""P24: Slat.tla against the interpreter: a program and the calls it means leave the same behind."""
import json, math, os, random, re
from vlib import tlc, py
from vlib.driver import close
from checks import pymodel

INV = ["Evaluated", "LastDefinition"]
PRELUDE = pymodel.PRELUDE + """
M, S = P.LOGNORMAL_MU_TYPE, P.LOGNORMAL_SIGMA_TYPE
MUS = {'mean_ln_x': M.MEAN_LN_X, 'median_x': M.MEDIAN_X, 'mean_x': M.MEAN_X}
SDS = {'sd_ln_x': S.SD_LN_X, 'sd_x': S.SD_X}
import math
import io
import numpy
numpy.seterr(all='ignore')
K = {'det': P.detfn, 'prob': P.probfn, 'im': P.im, 'edp': P.edp, 'frag': P.fragfn, 'loss': P.lossfn, 'cg': P.compgroup, 'st': P.structure}
FAM = {'det': [''], 'prob': ['mom'], 'im': ['lam', 'probs', 'crate'], 'edp': ['lam', 'mom'], 'frag': [''], 'loss': [''],
       'cg': ['costedp', 'delayedp', 'ecostim', 'pds', 'annual', 'rate'], 'st': ['total', 'fate', 'annual', 'set']}
for d in ('sub', 'd1', 'd2/e', 'data.1'):
    os.makedirs(d)
for i, d in enumerate(('.', 'd1', 'd2/e', 'data.1')):
    for f in ('resp1.csv', 'resp2.txt'):
        open(d + '/' + f, 'w').write('im\\n\\n' + ''.join('%r %r %r %r\\n' % (x, x * 0.02 * (1 + i), x * 0.05, 0.01 if f == 'resp1.csv' else 0.03) for x in (0.2, 0.6, 2.0)))
    for f in ('haz1.csv', 'haz2.txt'):
        open(d + '/' + f, 'w').write('im\\n\\n' + ''.join('%r %r\\n' % (x, y * (1 + i) * (1 if f == 'haz1.csv' else 0.7)) for x, y in ((0.01, 0.4), (0.1, 0.1), (1.0, 0.002), (3.0, 0.0003))))
def pr(text, file, app):
    if file:
        with open(file, 'a' if app else 'w') as f:
            f.write('{}\\n'.format(text))
    else:
        print('{}'.format(text))
def described(k, n):
    t = '{}'.format(K[k].lookup(n))
    if n not in t or '{}' in t:
        raise ValueError('the description of %s %s does not name it: %s' % (k, n, t))
    return t
def ladder(vs):
    return [list(vs[i:i + 2]) for i in range(0, len(vs), 2)]
import contextlib
def quiet():
    return contextlib.redirect_stdout(io.StringIO())
E = {}
def context():
    for i, n in enumerate(('H1', 'H2')):
        P.detfn(n, 'hyperbolic', [1221. - 200 * i, 29.8, 62.2])
    for i, n in enumerate(('M1', 'M2')):
        P.detfn(n, 'power law', [0.05 - 0.02 * i, 1.1])
    for i, n in enumerate(('G1', 'G2')):
        P.detfn(n, 'linear', [[0., 0.5, 1.5, 4.], [-7. + i, -3.9, -2.8, -2.]])
    for i, n in enumerate(('S1', 'S2')):
        P.detfn(n, 'power law', [0.4 + 0.05 * i, 0.05])
    P.probfn('Q1', 'lognormal', [M.MEAN_X, P.detfn.lookup('M1')], [S.SD_LN_X, P.detfn.lookup('S1')])
    for n, h in (('A', 'H1'), ('B', 'H2')):
        P.im(n, P.detfn.lookup(h))
    for n, a in (('E1', 'A'), ('E2', 'A'), ('E3', 'B')):
        P.edp(n, P.im.lookup(a), P.probfn.lookup('Q1'))
    o = {'mu': M.MEAN_X, 'sd': S.SD_LN_X}
    for i, n in enumerate(('F1', 'F2', 'K.1')):
        P.fragfn_user(n, o, [[0.01 + 0.004 * i, 0.4], [0.03, 0.4], [0.06, 0.4]][:2 if n == 'K.1' else 3])
    for i, n in enumerate(('L1', 'L2', 'N_1')):
        P.simplelossfn(n, o, [[0.1 + 0.04 * i, 0.4], [0.3, 0.4], [0.6, 0.4]][:2 if n == 'N_1' else 3])
    for n, e, f, l, d in (('C1', 'E1', 'F1', 'L1', 'L2'), ('C2', 'E2', 'F2', 'L2', 'L1'), ('C3', 'E3', 'K.1', 'N_1', 'N_1')):
        P.compgroup(n, P.edp.lookup(e), P.fragfn.lookup(f), P.lossfn.lookup(l), P.lossfn.lookup(d), 3, 1.0, 1.0)
    for n, g in (('T1', ('C1', 'C2')), ('T2', ('C3',))):
        s = P.structure(n)
        s.setRebuildCost(dist('mean', 20., 'sdln', 0.4))
        s.setDemolitionCost(dist('mean', 6., 'sdln', 0.4))
        for c in g:
            s.AddCompGroup(P.compgroup.lookup(c))
context()
def one(k, n):
    o = K[k].lookup(n)
    if o is None:
        return None
    fam = [q for q in FAM[k] if q != 'delayedp' or o.delay()] if k == 'cg' else FAM[k]
    r = [get(k, o, q, False) for q in fam]
    return [r, str(o) if k not in ('st', 'im') else '']
def everything():
    r = {}
    for k in K:
        for n in list(K[k].defs):
            r['%s %s' % (k, n)] = one(k, n)
    r['recorders'] = [str(x.type()) if hasattr(x, 'type') else '' for x in P.recorder.all()]
    r['settings'] = settings()
    return r
def settings():
    P.Reset_Statistics()
    P.im('probe', P.detfn(None, 'hyperbolic', [1000., 30., 60.])).SetCollapse(dist('mean', 0.9, 'sdln', 0.2))
    a = [P.im.lookup('probe').CollapseRate()]
    P.edp('probe', P.im.lookup('probe'), P.probfn(None, 'lognormal', [M.MEAN_X, P.detfn(None, 'power law', [0.05, 1.1])], [S.SD_LN_X, P.detfn(None, 'power law', [0.4, 0.05])]))
    a += [P.edp.lookup('probe').getlambda(0.7)]
    return a + [P.Format_Statistics(), P.full_input_path('q'), P.full_output_path('q')]
"""
SCRIPT = """
def interpret(text, keep=[]):
    I = SlatInterpreter
    parser = I.slatParser(I.CommonTokenStream(I.slatLexer(I.InputStream(text))))
    parser._errHandler = I.BailErrorStrategy()
    tree = parser.script()
    if not keep:
        keep.append(I.SlatInterpreter())
    I.ParseTreeWalker().walk(keep[0], tree)
"""
KINDS = {"detfn": "det", "probfn": "prob", "im": "im", "edp": "edp", "fragfn": "frag", "lossfn": "loss", "compgroup": "cg", "structure": "st", "importprobfn": "prob", "importimfn": "im",
         "collapse": "im", "demolition": "im", "rebuildcost": "st", "demolitioncost": "st"}
WORDS = {"det": "detfn", "prob": "probfn", "im": "im", "edp": "edp", "frag": "fragfn", "loss": "lossfn", "cg": "compgroup"}
USERS = {"frag": {"F1": "C1", "F2": "C2", "K.1": "C3"}, "loss": {"L1": "C1", "L2": "C2", "N_1": "C3"}, "det": {"H1": None}}


class Text:
    """a program as it is written: tokens, put together with spaces, lines and comments"""
    def __init__(self, seed):
        self.rng = random.Random(seed)

    def number(self, f, m):
        if f == "int":
            return str(m // 1000)
        if f == "dot":
            return "%d." % (m // 1000)
        if f == "exp":
            return "%d%s-%s" % (m, self.rng.choice("eE"), self.rng.choice(["3", "03"])) if self.rng.random() < 0.6 or m % 100 else "%s%d.%de%s" % ("-" if m < 0 else "", abs(m) // 1000, abs(m) % 1000 // 100, self.rng.choice(["0", "+0", "-0"]))
        s = repr(m / 1000)
        return ("+" if f == "plus" else "") + s

    def string(self, f, s):
        if f == "str":
            f = "str1" if "'" not in s and ('"' in s or self.rng.random() < 0.5) else "str2"
        q = "'" if f == "str1" else '"'
        return q + s.replace("\\", "\\\\").replace(q, "\\" + q) + q

    def expr(self, e, top=True):
        k = e[0]
        sp = self.rng.choice(["", " "])
        if k == "i":
            return str(e[1])
        if k == "f":
            return repr(e[1] / 1000) if e[1] >= 0 or top else "(%r)" % (e[1] / 1000)
        if k == "s":
            return repr(e[1])
        if k == "p":
            return "(" + sp + self.expr(e[1]) + sp + ")"
        if k == "neg":
            return "-" + self.expr(e[1], False)
        if k in "+-*/":
            return self.expr(e[1], False) + sp + k + sp + self.expr(e[2], False)
        if k == "log":
            return "math.log(" + self.expr(e[1]) + ")"
        if k == "list":
            return "[" + ("," + sp).join(self.expr(x) for x in e[1]) + "]"
        if k == "linspace":
            return "numpy.linspace(%r, %r, %d)" % (e[1] / 1000, e[2] / 1000, e[3])
        if k == "arange":
            return self.rng.choice(["numpy.arange(%r, %r, %r)", "numpy.arange(start=%r, stop=%r, step=%r)"]) % (e[1] / 1000, e[2] / 1000, e[3] / 1000)
        return e[1]

    def arg(self, a):
        f = a["f"]
        if f == "var":
            return "$" + a["var"]
        if f == "py":
            return "$(" + self.expr(a["e"]) + ")"
        if f in ("arr", "dict"):
            return self.value(a["v"])
        if f == "id":
            return a["v"]["s"]
        if f.startswith("str"):
            return self.string(f, a["v"]["s"])
        return self.number(f, a["v"]["m"])

    def value(self, v):
        k = v["k"]
        if k == "list":
            return "[" + ", ".join(self.value(x) for x in v["l"]) + "]"
        if k == "dict":
            return "(" + ", ".join((p[0]["s"] if re.fullmatch("[a-zA-Z_.]\\w*", p[0]["s"]) and self.rng.random() < 0.5 else self.string("str", p[0]["s"])) + ": " + self.value(p[1]) for p in v["l"]) + ")"
        if k == "str":
            return self.string("str", v["s"])
        return self.number("int" if k == "int" else "float", v["m"])

    def pairs(self, args):
        out = []
        for i in range(0, len(args), 2):
            out += [","] * bool(out) + ["[", args[i], ",", args[i + 1], "]"]
        return out

    def commas(self, l):
        return [y for x in l for y in (",", x)][1:]

    def flags(self, fs):
        return [y for f in fs for y in ("--sd" if f.startswith("sd") else "--mu", f)]

    def statement(self, s):
        op, t, a, r = s["op"], s["type"], [self.arg(x) for x in s["args"]], s["refs"]
        dest = [x for x in (s["file"], s["mode"]) if x]
        if op == "detfn":
            out = [op, s["id"], t] + (self.pairs(a) if t in ("linear", "loglog") else self.commas(a))
        elif op == "probfn":
            out = [op, s["id"], "lognormal", a[0], ",", a[1]] + self.flags(s["flags"])
        elif op in ("im", "edp"):
            out = [op, s["id"]] + r
        elif op in ("collapse", "demolition", "rebuildcost", "demolitioncost"):
            out = [op, s["id"]] + self.commas(a) + self.flags(s["flags"])
        elif op == "fragfn" or (op == "lossfn" and t == "simple"):
            out = [op, s["id"]] + ([t] if t else []) + self.pairs(a) + self.flags(s["flags"])
        elif op == "lossfn":
            out = [op, s["id"], t]
            for i in range(0, len(a), 5):
                out += [","] * (i > 0) + ["["] + self.commas(a[i:i + 5]) + ["]"]
        elif op == "compgroup":
            out = [op, s["id"]] + r + [str(s["num"][0])] + [repr(x / 1000) for x in s["num"][1:]]
        elif op == "structure":
            out = [op, s["id"]] + self.commas(r)
        elif op == "set":
            out = [op, s["id"], a[0]]
        elif op == "title":
            out = [op, a[0]]
        elif op == "print":
            out = [op] + ([t] + a if t in ("message", "title") else [WORDS[t], s["id"]]) + dest
        elif op == "integration":
            out = [op, "maq"] + a[:2] + ([t, a[2]] if t else [])
        elif op in ("inputdir", "outputdir"):
            out = [op, s["file"]]
        elif op in ("importprobfn", "importimfn"):
            out = [op, s["id"], s["file"]]
        elif op == "intstats":
            out = [op, s["mode"]]
        elif op == "recorder":
            at = []
            f, x = s["at"]["f"], [repr(y / 1000) for y in s["at"]["x"]]
            if f == "list":
                at = self.commas(x)
            elif f == "range":
                at = [x[0], ":", x[1], ":", x[2]]
            elif f in ("lin", "log"):
                at = [x[0], ":", x[1], "--linear" if f == "lin" else "--log", str(s["at"]["x"][2])]
            elif f == "arg":
                at = [self.arg(s["at"]["a"])]
            cols = ["--cols"] + self.commas([self.arg(c) for c in s["cols"]]) if s["cols"] else []
            if t in ("by-fate", "by-edp", "by-frag"):
                mid = ["structcost"] + r + ["--" + t] + at + cols
            elif t == "annual":
                mid = ["structcost"] + r + ["--annual"] + self.flags(s["flags"]) + cols
            elif t == "npv":
                n = s["num"]
                mid = ["structcost"] + r + ["--npv", str(n[0]), ":", str(n[1]), ":", str(n[2]), repr(n[3] / 1000)]
            else:
                mid = [t] + r + at + cols + ([s["text"]] if s["text"] else [])
            out = [op, s["id"]] + mid + dest
        else:
            out = [op]
        return self.join(out + [";"])

    def join(self, toks):
        text = ""
        for i, x in enumerate(toks):
            if i:
                tight = x in (",", ";", "]", ":") or toks[i - 1] in (",", "[", ":")
                q = self.rng.random()
                text += "" if tight and q < 0.7 else " " if q < 0.85 else self.rng.choice(["\n", "\t", "  ", "  # it's a \"comment\"; print;\n", " #\n\t", "\r\n"])
            text += x
        return text + self.rng.choice(["\n", " ", "", "\n\n# end of it\n"])


def val(v):
    k = v["k"]
    if k == "int":
        return str(v["m"] // 1000)
    if k == "flt":
        return repr(v["m"] / 1000)
    if k == "ln":
        return "math.log(%r)" % (v["m"] / 1000)
    if k == "str":
        return repr(v["s"])
    if k == "list":
        return "[" + ", ".join(val(x) for x in v["l"]) + "]"
    if k == "array":
        return "np.array([" + ", ".join(val(x) for x in v["l"]) + "])"
    if k == "dict":
        return "{" + ", ".join("%s: %s" % (val(a), val(b)) for a, b in v["l"]) + "}"
    if k == "geo":
        a, b = (x["m"] / 1000 for x in v["l"])
        return repr([a * (b / a) ** (i / (v["m"] - 1)) for i in range(v["m"])])
    if k == "ask":
        return "E[%d]" % v["m"]
    return "None"


def call(c, i):
    """the statement of the scripting layer a call stands for; it is the i-th; only what is asked to be printed counts as printed"""
    x = call_(c, i)
    return x if c["fn"] in ("print", "intstats", "analyze") or x == "pass" else "with quiet():\n    " + x


def call_(c, i):
    fn, r, v = c["fn"], c["refs"], [val(x) for x in c["vals"]]
    op = "{'mu': MUS[%r], 'sd': SDS[%r]}" % (c["mu"], c["sd"])
    if fn == "detfn":
        p = v if c["type"] not in ("linear", "loglog") else ["[%s]" % ", ".join(v[0::2]), "[%s]" % ", ".join(v[1::2])]
        return "P.detfn(%r, %r, [%s])" % (c["id"], {"powerlaw": "power law"}.get(c["type"], c["type"]), ", ".join(p))
    if fn == "probfn":
        return "P.probfn(%r, 'lognormal', [MUS[%r], P.detfn.lookup(%r)], [SDS[%r], P.detfn.lookup(%r)])" % (c["id"], c["mu"], r[0], c["sd"], r[1])
    if fn == "im":
        return "P.im(%r, P.detfn.lookup(%r))" % (c["id"], r[0])
    if fn == "edp":
        return "P.edp(%r, P.im.lookup(%r), P.probfn.lookup(%r))" % (c["id"], r[0], r[1])
    if fn in ("collapse", "demolition", "rebuildcost", "demolitioncost"):
        m = {"collapse": "im.lookup(%r).SetCollapse", "demolition": "im.lookup(%r).SetDemolition", "rebuildcost": "structure.lookup(%r).setRebuildCost", "demolitioncost": "structure.lookup(%r).setDemolitionCost"}[fn]
        return "P." + m % c["id"] + "(P.MakeLogNormalDist(%s, MUS[%r], %s, SDS[%r]))" % (v[0], c["mu"], v[1], c["sd"])
    if fn in ("fragfn", "simplelossfn"):
        return "P.%s(%r, %s, ladder([%s]))" % ("fragfn_user" if fn == "fragfn" else fn, c["id"], op, ", ".join(v))
    if fn == "bilevellossfn":
        return "P.bilevellossfn(%r, [%s])" % (c["id"], ", ".join("[" + ", ".join(v[j:j + 5]) + "]" for j in range(0, len(v), 5)))
    if fn == "compgroup":
        n = c["num"]
        return "P.compgroup(%r, P.edp.lookup(%r), P.fragfn.lookup(%r), P.lossfn.lookup(%r), %s, %d, %r, %r)" % (
            c["id"], r[0], r[1], r[2], "P.lossfn.lookup(%r)" % r[3] if r[3] else "None", n[0], n[1] / 1000, n[2] / 1000)
    if fn == "structure":
        return "; ".join(["s = P.structure(%r)" % c["id"]] + ["s.AddCompGroup(P.compgroup.lookup(%r))" % g for g in r])
    if fn == "set":
        # the answer to a question is that of the time it was asked
        x = c["vals"][0]
        return "E[%d] = %s" % (i, x["s"]) if x["k"] == "ask" and x["m"] == i else "pass"
    if fn == "print":
        t = {"message": v[0] if v else "''", "title": repr("".join("\n" + x["s"] for x in c["vals"]))}.get(c["type"]) or "described(%r, %r)" % (c["type"], c["id"])
        return "pr(%s, %r, %r)" % (t, c["file"], c["app"])
    if fn == "integration":
        m = {"binary": "BINARY_SUBDIVISION", "revbin": "REVERSE_BINARY_SUBDIVISION", "lowrev": "LOW_FIRST_REVERSE_BINARY_SUBDIVISION", "scattered": "SCATTERED", "directed": "DIRECTED"}.get(c["type"])
        s = "P.IntegrationSettings(%s, %s)" % (v[0], v[1])
        return s if not m else "P.Set_Integration_Method(P.INTEGRATION_METHOD.%s); P.Set_Integration_Search_Limit(%s); %s" % (m, v[2], s)
    if fn in ("inputdir", "outputdir"):
        return "P.set_%sput_directory(%r)" % (fn[:2] if fn[0] == "i" else fn[:3], c["file"])
    if fn in ("importprobfn", "importimfn"):
        return "P.Import%s(%r, %r)" % ("ProbFn" if fn == "importprobfn" else "IMFn", c["id"], c["file"])
    if fn == "intstats":
        return "print(P.Format_Statistics())" if c["type"] == "print" else "P.Reset_Statistics()"
    if fn == "recorder":
        t, o = c["type"], {}
        if c["file"]:
            o = {"filename": c["file"], "append": c["app"]}
        if c["norm"]:
            o["normalise"] = True
        if t in ("by-fate", "by-edp", "by-frag", "annual", "npv"):
            o["structcost-type"] = t
            if t == "npv":
                o["discount-rate"] = c["num"][0] / 1000
            t = "structcost"
        k = {"detfn": "det", "probfn": "prob", "imrate": "im", "collapse": "im", "collrate": "im", "edpim": "edp", "edprate": "edp", "structcost": "st", "deagg": "st", "totalcost": "st", "pdf": "st"}.get(t, "cg")
        return "P.MakeRecorder(%r, %r, K[%r].lookup(%r), %r, %s, %s)" % (c["id"], t, k, r[0], o, val(c["cols"]), val(c["at"]))
    if fn == "analyze":
        return "for r in P.recorder.all(): r.run()"
    return "pass"


ADDRESS = re.compile("0x[0-9a-f]+")
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)")


def same_text(a, b):
    a, b = ADDRESS.sub("at", a), ADDRESS.sub("at", b)
    if a == b:
        return True
    if NUMBER.sub("#", a) != NUMBER.sub("#", b):
        return False
    x, y = NUMBER.findall(a), NUMBER.findall(b)
    return len(x) == len(y) and all(close(float(p), float(q), 1e-7, 1e-10) or (float(p) != float(p) and float(q) != float(q)) for p, q in zip(x, y))


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return same_text(a, b)
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and (a == b or (a != a and b != b) or close(a, b, 1e-7, 1e-12))
    return a == b


def differ(a, b):
    """where two observations differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b or not same(a[k], b[k]):
                return "%s: %s, where the calls lead to %s" % (k, a.get(k, "missing"), b.get(k, "nothing"))
    return "%s, where the calls lead to %s" % (a, b)


def printed(script, calls):
    """every line the calls print is to be among those of the program, in order"""
    it = iter(script.split("\n"))
    for l in calls.split("\n"):
        if not any(same_text(l, x) for x in it):
            return l
    return None


def files(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            n = os.path.relpath(os.path.join(p, f), d)
            if n not in ("stdout", "stderr") and not n.endswith(".slat"):
                out[n] = open(os.path.join(p, f), errors="replace").read()
    return out


def looks(s):
    """what is looked at after a statement on its own"""
    op = s["op"]
    if op in KINDS:
        k = KINDS[op]
        n = USERS.get(k, {}).get(s["id"])
        return "[one(%r, %r)%s]" % (k, s["id"], ", one('cg', %r)" % n if n else "")
    if op == "recorder":
        return "P.recorder.lookup(%r).run()" % s["id"]
    if op == "integration":
        return "settings()"
    if op in ("inputdir", "outputdir"):
        return "[P.full_input_path('q'), P.full_output_path('q')]"
    return "None"


def singles(zs, zd, batch, seed):
    """statements one by one: (program so far, what is wrong)"""
    t = Text(seed)
    firsts = batch["first"]
    a, b, texts = [{"x": PRELUDE + SCRIPT}], [{"x": PRELUDE}], []
    a.append({"x": "interpret(%r)" % "".join(t.statement(x["st"]) for x in firsts)})
    b.append({"x": "pass"})
    i = len(firsts) + 1
    for x in batch["s"]:
        s, c = x["st"], x["call"]
        text = t.statement(s)
        texts.append(text)
        a.append({"x": "interpret(%r)" % text})
        b.append({"x": call(c, i)})
        l = looks(s)
        if s["op"] == "set":
            a.append({"x": "interpret('print message $%s;')" % s["id"]})
            b.append({"x": "pr(%s, '', False)" % val(c["vals"][0])})
            l = "None"
        elif s["op"] == "title":
            a.append({"x": "interpret('print title;')"})
            b.append({"x": "pr(%r, '', False)" % ("\n" + s["args"][0]["v"]["s"])})
            l = "None"
        a.append({"e": l})
        b.append({"e": l})
    (oa, fa), (ob, fb) = zs.run(a, files), zs.run(b, files)
    for j, (p, q) in enumerate(zip(oa, ob)):
        n = max(0, len([x for x in a[2:j + 1] if "x" in x]) - 1)
        text = a[j].get("x") or a[j]["e"]
        prog = texts[-1] if j >= len(a) - 1 else text
        bad = compare(p, q)
        if bad:
            k = j
            while k > 1 and not (a[k].get("x") or "").startswith("interpret"):
                k -= 1
            return a[k].get("x", ""), b[k].get("x", ""), bad
    if not same(fa, fb):
        return "".join(texts), "\n".join(x.get("x", "") for x in b[2:]), "files are: " + differ(fa, fb)
    return None


def compare(p, q):
    if p.died or q.died:
        return None if p.died and q.died else "the program %s, the calls %s" % (p.died or "goes on", q.died or "go on")
    if (p.err or "").split(":")[0] != (q.err or "").split(":")[0]:
        return "the program %s, the calls %s" % ("raises " + p.err if p.err else "goes on", "raise " + q.err if q.err else "go on")
    if not same(p.v, q.v):
        return "it leads to " + differ(p.v, q.v)
    l = printed(p.out, q.out)
    if l is not None:
        return "%r is to be printed, but what is printed is %r" % (l, p.out[-800:])
    return None


def program(z, steps, seed):
    """a whole program, of several files"""
    t = Text(seed)
    texts, calls = [""], []
    for i, x in enumerate(steps):
        if x["st"]["op"] == "file":
            texts.append("")
        else:
            texts[-1] += t.statement(x["st"])
        calls.append(call(x["call"], i + 1))
    a = [{"x": PRELUDE}] + [{"x": "open('f%d.slat', 'w', newline='').write(%r)" % (i, x)} for i, x in enumerate(texts)]
    a += [{"x": "SlatInterpreter.main(['slat', %s])" % ", ".join("'f%d.slat'" % i for i in range(len(texts)))}, {"e": "everything()"}]
    b = [{"x": PRELUDE}] + [{"x": "pass"} for x in texts] + [{"x": "\n".join(calls)}, {"e": "everything()"}]
    (oa, fa), (ob, fb) = z.run(a, files), z.run(b, files)
    ended = ob[-2].err or ob[-2].died
    for p, q in zip(oa, ob):
        bad = compare(p, q)
        if bad:
            return texts, calls, bad, ended
    if not same(fa, fb):
        return texts, calls, "files are: " + differ(fa, fb), ended
    return None, ended


def run(check):
    r = tlc.check("Slat", tlc.config(dict(Depth=1, Mode="each"), spec="SpecEach", invariants=INV + ["FlagsCommute", "EmitEach"], properties=["NoRewriting"]), check.work, timeout=800)
    check.tlc(r)
    lines = r.lines()
    first = lines[0]["first"]    # the variables every one of these starts with
    ones = [x["s"][0] for x in lines if x["s"]]
    rng = random.Random(check.seed)
    check.add("statement_forms", len(ones))
    n_forms = len(ones)
    rng.shuffle(ones)
    if not check.thorough:    # some of every kind
        kept, n = [], {}
        for x in ones:
            k = (x["st"]["op"], x["st"]["type"], len(x["st"]["flags"]), x["st"]["at"]["f"], bool(x["st"]["cols"]), x["st"]["mode"])
            n[k] = n.get(k, 0) + 1
            if n[k] <= 12:
                kept.append(x)
        ones = kept
    tasks, batch = [], []
    for x in ones:
        if x["st"]["op"] in ("set", "title", "integration", "inputdir", "outputdir", "intstats"):
            tasks.append(("one", {"first": first, "s": [x]}))
        else:
            batch.append(x)
    tasks += [("one", {"first": first, "s": batch[i:i + 20]}) for i in range(0, len(batch), 20)]
    per, n = tlc.simulate("Slat", tlc.config(dict(Depth=check.pick(30, 45), Mode="random"), spec="SpecRandom", invariants=INV + ["EmitRandom"]), check.work, check.pick(24, 200), check.pick(31, 46), check.seed)
    check.add("states", n)
    check.add("transitions", n)
    for p in per:
        for b in p:
            for x in (b if isinstance(b, list) else [b])[:4]:
                tasks.append(("program", x["s"]))
    zs = py.zygotes(check, interpreter=True)
    ended = [0]

    def do(z, t):
        kind, x = t
        seed = "%s %s" % (check.seed, len(json.dumps(x)))
        if kind == "one":
            w = singles(z, None, x, seed)
            if w:
                return w[0], "it means\n%s\n%s" % (w[1], w[2])
            return None
        w = program(z, x, seed)
        if w[-1]:
            ended[0] += 1
        if w[0] is None:
            return None
        i, calls, why = len(x), w[1], w[2]
        # the shortest beginning that is already wrong
        lo, hi, best = 0, len(x), w
        while hi - lo > 1:
            mid = (lo + hi) // 2
            v = program(z, x[:mid], seed)
            if v[0] is not None:
                hi, best = mid, v
            else:
                lo = mid
        return "\n# next file\n".join(best[0]), "it means\n%s\n%s" % ("\n".join(best[1][-6:]), best[2])
    for i, text, why in py.each(zs, tasks, do):
        check.violation("the program\n%s\n%s" % (text[-1500:], why[:2500]), {"program": text, "why": why})
    for z in zs:
        z.close()
    check.add("traces_validated_against_impl", len(tasks))
    check.add("programs", len([t for t in tasks if t[0] == "program"]))
    check.add("statements_one_by_one", len(ones))
    check.add("programs_that_end_early", ended[0])
    check.sample({"statements": [Text(1).statement(x["st"]) for x in ones[:10]]})

