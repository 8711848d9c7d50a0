"""P25: Logging.tla against the log destinations of the scripting layer."""
import os, re
from vlib import tlc, py


def steps(b):
    out = []
    for s in b["steps"]:
        if s["op"] == "stderr":
            out.append({"x": "pyslat.LogToStdErr(%s)" % s["x"]})
        elif s["op"] == "file":
            out.append({"x": "pyslat.SetLogFile(%r)" % s["x"]})
        else:
            # refused, with a message
            out.append({"x": "pyslat.Set_Integration_Tolerance(-%s.5)" % s["x"]})
    return out


def messages(path):
    if not os.path.exists(path):
        return []
    return [int(x) for x in re.findall(r"-(\d+)\.5", open(path, errors="replace").read())]


def run(check):
    files = {"one.log", "two.log"}
    r = tlc.check("Logging", tlc.config(dict(Files=files, Depth=check.pick(7, 8), Exhaustive=True), invariants=["Delivered"]), check.work, timeout=700)
    check.tlc(r)
    r = tlc.check("Logging", tlc.config(dict(Files=files, Depth=check.pick(5, 6), Exhaustive=True), invariants=["Delivered", "Emit"]), check.work, timeout=700)
    check.tlc(r)
    hs = r.lines()
    per, n = tlc.simulate("Logging", tlc.config(dict(Files=files | {"three.log", "sub/four.log", "no_extension"}, Depth=60, Exhaustive=False), invariants=["Delivered", "Emit"]), check.work,
                          check.pick(12, 150), 61, check.seed)
    hs += [h for p in per for h in p]
    check.add("states", n)
    check.add("transitions", n)
    zs = py.zygotes(check)

    def look(d):
        names = [os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs]
        return {f: messages(os.path.join(d, f)) for f in names}

    def do(z, b):
        out, seen = z.run(steps(b), look, exit=True)
        for i, o in enumerate(out):
            if o.err or o.died:
                return [x["x"] for x in steps(b)[:i + 1]], "the call fails: %r" % o
        for f in sorted(set(seen) | set(b["infile"]) | {"stderr", "stdout"}):
            want = b["onerr"] if f == "stderr" else b["infile"].get(f, [])
            got = seen.get(f, [])
            if got != want and not (f == b["last"] and got == []):
                return [x["x"] for x in steps(b)], "%s has messages %s, where it is to have %s" % (f, got, want)
    for i, ops, why in py.each(zs, hs, do):
        check.violation("after\n%s\n%s" % ("\n".join(ops[-14:]), why), {"operations": ops, "why": why})
    for z in zs:
        z.close()
    check.add("traces_validated_against_impl", len(hs))
    check.sample({"behaviour": [x["x"] for x in steps(hs[-1])][:20]})
    check.assumptions.append("destinations are looked at after the program has ended")
