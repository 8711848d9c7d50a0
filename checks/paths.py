"""P23: Paths.tla against the scripting layer's file names."""
import os
from vlib import tlc, py

PRELUDE = """
P = pyslat
ROOT = os.getcwd()
def place(w):
    return os.path.join(ROOT, 'absolute') if w == '/' else os.path.join(ROOT, w)
PL = %r
BASES = %r
CWDS = %r
NUM = {}
for c in CWDS:
    for d in [''] + PL:
        w = '/' if d == '/' else os.path.join(c, d) if c or d else ''
        os.makedirs(place(w), exist_ok=True)
        for b in BASES + [b + '.csv' for b in BASES]:
            p = os.path.join(place(w), b)
            if p not in NUM:
                NUM[p] = 1.0 + len(NUM)
                # another file for every place, name and kind: what was read is told by the values
                open(p, 'w').write('x\\n\\n0.5 %%r %%r\\n1.0 %%r %%r\\n' %% ((NUM[p],) * 4))
haz = P.im('IM', P.detfn(None, 'hyperbolic', [1221., 29.8, 62.2]))
def given(d, b):
    return b if d == '-' else os.path.join(ROOT, 'absolute', b) if d == '/' else d + '/' + b
def directory(d):
    return os.path.join(ROOT, 'absolute') if d == '/' else d
def same(p, w, f):
    return p if os.path.realpath(p) != os.path.realpath(os.path.join(place(w), f)) else True
def which(v):
    return [os.path.relpath(p, ROOT) for p in NUM if NUM[p] == round(v, 6)]
def state():
    r = {}
    for d, _, fs in os.walk(ROOT):
        for f in fs:
            p = os.path.join(d, f)
            if f not in ('stderr', 'stdout') or d != ROOT:
                t = open(p).read()
                r[os.path.relpath(p, ROOT)] = t.count('lambda') if t.count('lambda') else -1
    return r
BEFORE = state()
ORIG = {p: open(p).read() for p in NUM}
class pristine:
    "the input files as they were prepared, whatever was written over them"
    def __enter__(self):
        self.now = {p: open(p).read() for p in NUM if open(p).read() != ORIG[p]}
        for p in self.now:
            open(p, 'w').write(ORIG[p])
    def __exit__(self, *a):
        for p in self.now:
            open(p, 'w').write(self.now[p])
def changed():
    now = state()
    return {p: n for p, n in now.items() if BEFORE.get(p) != n}
def interpret(text):
    I = SlatInterpreter
    lexer = I.slatLexer(I.InputStream(text))
    parser = I.slatParser(I.CommonTokenStream(lexer))
    parser._errHandler = I.BailErrorStrategy()
    tree = parser.script()
    I.ParseTreeWalker().walk(I.SlatInterpreter(), tree)
"""


def steps(h, consts, script):
    out = [{"x": PRELUDE % (sorted(consts["Places"]), sorted(consts["Bases"]), sorted(consts["Cwds"]))}]
    for i, s in enumerate(h):
        d, b = s["n"]["dir"], s["n"]["base"]
        n = "given(%r, %r)" % (d, b)
        w, f = s["ans"]
        # statements of the language can say the same, except for names with an odd character
        lang = script and (i * 7 + len(h)) % 3
        if s["op"] in ("setin", "setout"):
            k = "in" if s["op"] == "setin" else "out"
            out.append({"x": "interpret('%sputdir ' + directory(%r) + ';')" % (k, s["d"])} if lang else {"x": "P.set_%sput_directory(directory(%r))" % (k, s["d"])})
            out.append({"e": "os.path.isdir(place(%r))" % w if k == "out" else "True"})
        elif s["op"] == "cd":
            out.append({"x": "os.chdir(place(%r))" % s["d"]})
            out.append({"e": "True"})
        elif s["op"] in ("askin", "askout"):
            out.append({"x": "a = P.full_%sput_path(%s)" % (s["op"][3:], n)})
            out.append({"e": "same(a, %r, %r)" % (w, f)})
        elif s["op"] == "probfn":
            out.append({"x": "with pristine(): " + "interpret('importprobfn q ' + %s + ';')" % n if lang else "with pristine(): P.ImportProbFn('q', %s)" % n})
            out.append({"e": "which(P.probfn.lookup('q').Median(0.5)) == [os.path.relpath(os.path.join(place(%r), %r), ROOT)] or which(P.probfn.lookup('q').Median(0.5))" % (w, f)})
        elif s["op"] == "imfn":
            out.append({"x": "with pristine(): " + "interpret('importimfn q ' + %s + ';')" % n if lang else "with pristine(): P.ImportIMFn('q', %s)" % n})
            out.append({"e": "which(P.im.lookup('q').getlambda(0.5)) == [os.path.relpath(os.path.join(place(%r), %r), ROOT)] or which(P.im.lookup('q').getlambda(0.5))" % (w, f)})
        else:
            a = s["op"] == "append"
            if lang:
                out.append({"x": "interpret('recorder rec imrate IM 0.5 ' + %s + ' %s; analyze;')" % (n, "--append" if a else "--new")})
            else:
                out.append({"x": "P.MakeRecorder('rec', 'imrate', haz, {'filename': %s, 'append': %r}, None, [0.5]).run()" % (n, a)})
            out.append({"e": "changed()"})
    return out


def wrong(h, out):
    if out[0].err or out[0].died:
        return 0, "the files could not be prepared: %r" % out[0]
    for i, s in enumerate(h):
        a, b = out[1 + 2 * i], out[2 + 2 * i]
        for x in (a, b):
            if x.err or x.died:
                return i, "fails: %r" % x
        if s["op"] in ("new", "append"):
            want = {os.path.normpath(os.path.join("absolute" if p[0] == "/" else p[0], p[1])): k for p, k in s["lines"]}
            if b.v != want:
                return i, "the files written are %s, where they are to be %s" % (b.v, want)
        elif b.v is not True:
            return i, "stands for %r, where it is to be %s/%s" % (b.v, s["ans"][0], s["ans"][1])
    return None


def say(h):
    return ["%s %s %s" % (s["op"], s["d"] if s["d"] != "-" else "", "" if s["n"]["base"] == "-" else (s["n"]["dir"] + "/" if s["n"]["dir"] != "-" else "") + s["n"]["base"]) for s in h]


def run(check):
    small = dict(Places={"in", "/"}, Bases={"x"}, Cwds={"", "cwd"}, Depth=check.pick(3, 4), Exhaustive=True)
    # the properties of the specification itself, over every history of a few steps
    r = tlc.check("Paths", tlc.config(small, invariants=["OneCount"], properties=["Untouched"]), check.work, timeout=700)
    check.tlc(r)
    large = dict(Places={"in", "out", "sub", "deep/er", "/"}, Bases={"x", "y.txt", "z.csv", "a.b.c", "w.", ".h", ".h.d"}, Cwds={"", "cwd"}, Depth=40, Exhaustive=False)
    jobs = []
    r = tlc.check("Paths", tlc.config(dict(small, Depth=3), invariants=["Emit"]), check.work, timeout=700)
    check.tlc(r)
    jobs += [(h, small, False) for h in r.lines()][::check.pick(3, 1)]
    per, n = tlc.simulate("Paths", tlc.config(large, invariants=["OneCount", "Emit"]), check.work, check.pick(10, 150), 41, check.seed)
    check.add("states", n)
    check.add("transitions", n)
    for i, h in enumerate(h for p in per for h in p):
        jobs.append((h, large, i % 2 == 1))
    zs = py.zygotes(check, interpreter=True)

    def do(z, j):
        h, consts, script = j
        out = z.run(steps(h, consts, script))
        w = wrong(h, out)
        if w:
            return say(h)[:w[0] + 1], w[1]
    for i, ops, why in py.each(zs, jobs, do):
        check.violation("after\n%s\n%s" % ("\n".join(ops[-12:]), why), {"operations": ops, "why": why})
    for z in zs:
        z.close()
    check.add("traces_validated_against_impl", len(jobs))
    check.sample({"behaviour": say(jobs[-1][0])})
    check.assumptions.append("the names given to 'print' statements and to logging are used as they are: outside this property")
