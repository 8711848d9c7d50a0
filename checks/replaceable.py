"""Replaceable.tla against Replaceable<T> (part of P04 and P05)."""
from concurrent.futures import ThreadPoolExecutor
from vlib import tlc, build
from vlib.driver import Driver


def run(check, tokens_depth=None):
    exe = build.program("repdrv", ["repdrv.cpp"], variant="asan", libs=[])
    subj = {"r1", "r2", "r3"}
    inv = ["RegisteredWhereReferred", "NeverTwice"]
    r = tlc.check("Replaceable", tlc.config(dict(Subjects=subj, Tokens=check.pick(2, 3), Depth=99, Exhaustive=True), invariants=inv, view="View"), check.work, timeout=600)
    check.tlc(r)
    # every sequence of operations up to a depth, and longer random ones
    d = check.pick(4, 5)
    r = tlc.run("Replaceable", tlc.config(dict(Subjects={"r1", "r2"}, Tokens=2, Depth=d, Exhaustive=True), spec="SpecD", invariants=inv + ["Emit"]), check.work, timeout=600)
    if not r.ok:
        raise tlc.TLCError(tlc.tail(r.out))
    check.tlc(r)
    hs = r.lines()
    per, n = tlc.simulate("Replaceable", tlc.config(dict(Subjects=subj, Tokens=8, Depth=60, Exhaustive=False), spec="SpecD", invariants=inv + ["Emit"]), check.work,
                          check.pick(10, 80), 61, check.seed)
    hs += [h for p in per for h in p]
    check.add("states", n)
    check.add("transitions", n)

    def do(part):
        cmds, want = [], []
        for h in part:
            cmds.append("reset"); want.append("N W")
            for s in h:
                cmds.append("%s %s %s" % (s["op"], s["x"], s["y"]))
                w = " ".join("%s=%s" % (t, s["where"][t]) for t in sorted(s["where"]) if s["where"][t] != "-")
                want.append(None if s["op"] == "replace" else "N" + "".join(" " + t for t in sorted(s["notified"])) + " W" + (" " + w if w else ""))
                if s["op"] == "replace":
                    want[-1] = " W" + (" " + w if w else "")
        drv = Driver(exe)
        out, err = drv.batch(cmds)
        bad = []
        last = 0
        for i, c in enumerate(cmds):
            if c == "reset":
                last = i
            if i >= len(out):
                bad.append((cmds[last:i + 1], "DIED " + str(err), want[i]))
                break
            ok = out[i] == want[i] if want[i][0] == "N" else out[i].endswith(want[i])
            if not ok:
                bad.append((cmds[last:i + 1], out[i], want[i]))
                break
        if err is None:
            end = drv.close()
            if end and not bad:
                bad.append((cmds[last:], end, "END"))
        return bad
    with ThreadPoolExecutor(8) as ex:
        for bad in ex.map(do, [hs[i::8] for i in range(8)]):
            for cmds, got, want in bad:
                check.violation("Replaceable: after %s\n got %s\nwant %s" % ("; ".join(cmds), got, want), {"commands": cmds, "got": got, "want": want})
    check.add("traces_validated_against_impl", len(hs))
    check.add("replaceable_behaviours", len(hs))
    check.log("%d behaviours of Replaceable replayed" % len(hs))
