"""P01, P02, P03, P04, P05, P19: the model graph (ModelGraph.tla) against the library."""
import random
from concurrent.futures import ThreadPoolExecutor
from vlib import tlc, build, modelgraph as mg

FOCUS = {"P01": "im", "P02": "cg", "P03": "st", "P04": "replace", "P05": "drop", "P19": "members"}
# reads that count for the property (by the first letter of the object)
KINDS = {"P01": "ie", "P02": "c", "P03": "s", "P04": "iecs", "P05": "iecs", "P19": "s"}


def relevant(prop, seq):
    ops = [o["op"] for o in seq["ops"]]
    if prop == "P01":
        return not any(o in ("add", "rem", "reb", "dmo", "drop") for o in ops) and not any(o["x"][0] in "klcs" for o in seq["ops"])
    if prop == "P02":
        return not any(o in ("add", "rem", "reb", "dmo", "drop") for o in ops)
    if prop == "P03":
        return "drop" not in ops
    if prop == "P04":
        return "replace" in ops
    if prop == "P05":
        return any(o in ("rem", "drop", "replace") for o in ops)
    return any(o in ("add", "rem") for o in ops)


def run(check):
    prop = check.prop
    if prop in ("P04", "P05"):
        from . import replaceable
        replaceable.run(check)
    exe = build.program("slatdrv", ["slatdrv.cpp"])
    asan = build.program("slatdrv", ["slatdrv.cpp"], variant="asan") if prop == "P05" else None
    # 1. the specification itself
    inst, level = ("A", check.pick(4, 7)) if prop == "P01" else ("B", check.pick(5, 8))
    r = mg.exhaustive(check, inst, level)
    if not r.ok:
        raise tlc.TLCError("ModelGraph: " + tlc.tail(r.out))
    check.tlc(r)
    check.log("specification: %d states, no stale result, exact subscriptions (up to %d steps)" % (r.distinct, level - 1))
    if check.thorough:
        for d in mg.DEFECTS[inst]:
            r = mg.exhaustive(check, inst, 6, defects=[d])
            check.add("defects_seeded_in_specification", 1)
            if not r.violated:
                raise tlc.TLCError("the specification does not notice the defect %s" % (d,))
    # 2. every sequence of operations on the standard model
    seqs = [s for s in mg.sequences(check, 2) if relevant(prop, s)]
    rnd = random.Random(check.seed)
    single = [s for s in seqs if len(s["ops"]) == 1]
    pairs = [s for s in seqs if len(s["ops"]) == 2]
    limit = check.pick({"P01": 4000, "P02": 1500, "P03": 1200, "P04": 600, "P05": 300, "P19": 1500}[prop], 100000)
    if len(pairs) > limit:
        pairs = rnd.sample(pairs, limit)
    seqs = single + pairs
    kinds = KINDS[prop]
    use = asan or exe
    some = []

    def do(part):
        ref = mg.Reference(exe)
        res = []
        for s in part:
            if len(some) >= 5:
                break
            bad = mg.replay_sequence(use, s, ref, kinds)
            if bad and mg.replay_sequence(use, s, ref, kinds):
                some.append(1)
                res.append((s, bad))
        ref.close()
        return res
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(do, [seqs[i::8] for i in range(8)]):
            for s, (cmds, i, cmd, got, want) in res:
                check.violation("after %s: '%s' answers\n%s\nwhere the current model is\n%s" % ([" ".join(str(v) for k, v in o.items() if k != "ok") for o in s["ops"]], cmd, got[:500], want[:500]),
                                {"commands": cmds[:i + 1], "got": got, "want": want})
    check.add("traces_validated_against_impl", len(seqs))
    check.add("operation_sequences", len(seqs))
    check.log("%d sequences of operations replayed" % len(seqs))
    # 3. long random behaviours
    num = check.pick(15, 150)
    hs = []
    for small in (True, False):
        h, n = mg.behaviours(check.work, FOCUS[prop], num, 70, check.seed, small=small)
        hs += h
        check.add("states", n)
        check.add("transitions", n)
    mut = mg.SETS["Mutable"]

    found = []

    def go(part):
        ref = mg.Reference(exe)
        res = []
        for h in part:
            if len(found) >= 3:
                break
            mm = mg.replay(use, h, mut, ref)
            if mm is None or not counts(prop, mm):
                continue
            found.append(1)
            h, mm = mg.shrink(use, h, mut, ref, mm, budget=30)
            res.append((h, mm))
        ref.close()
        return res
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(go, [hs[i::8] for i in range(8)]):
            for h, mm in res:
                check.violation("'%s' answers\n%s\nwhere the current model is\n%s" % (mm.op, mm.got[:500], mm.want[:500]),
                                {"commands": mg.commands(h, mut), "got": mm.got, "want": mm.want})
    check.add("traces_validated_against_impl", len(hs))
    check.add("random_behaviours", len(hs))
    if hs:
        check.sample({"behaviour": mg.commands(hs[0], mut)[:80]})
    check.sample({"sequence": seqs[-1]["ops"]})
    check.assumptions += ["the numeric parameters behind the specification's identifiers are fixed (vlib/modelgraph.py)",
                          "a member group's demand is not moved to another intensity measure (documented precondition)",
                          "results are compared with a relative tolerance of 1e-7 to a model built from scratch by the same library"]


def counts(prop, mm):
    if mm.kind == "died":
        return True
    if mm.kind == "read":
        return mm.obj[0] in KINDS[prop]
    return mm.kind in ("members", "add", "rem") and prop in ("P03", "P19") or prop == "P04"
