"""Executions under the cooperative scheduler (harness/sched.cpp) and validation of their traces by TLC."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from vlib import tlc
from vlib.driver import Driver

REPORT = 5      # violations that are executed again and reported


def execute(exe, lines, timeout=40):
    """event lines of the executions, restarting after one that deadlocks or crashes"""
    res = []
    broken = 0
    env = {"GOMP_SPINCOUNT": "0"}
    while len(res) < len(lines):
        d = Driver(exe, timeout=timeout, env=env)
        out, err = d.batch(lines[len(res):])
        res += out
        if err is None:
            d.close()
        else:
            d.forget()
            broken += 1
            if broken >= 10:
                break      # enough has been seen
            if len(res) < len(lines) and not (out and ("deadlock:" in out[-1] or "killed:" in out[-1])):
                res.append("hang:" + err.replace(" ", "_")[:200])
            elif len(res) == len(lines):
                pass
    return res


def steps_of(line):
    return int(line.rsplit("steps:", 1)[1]) if "steps:" in line else 400


def plans(check, scen, exe, n_single, n_random):
    rnd = random.Random("%d %s" % (check.seed, scen))
    nt = scen.count(";") + 1
    base = execute(exe, ["order=%d %s" % (o, scen) for o in range(nt)])
    base += [""] * (nt - len(base))
    out = ["order=%d %s" % (o, scen) for o in range(nt)]
    # every place where one switch can happen (or an even sample of them)
    single = []
    for o in range(nt):
        s = steps_of(base[o])
        for r in range(1, nt):
            single += ["order=%d at=%d:%d %s" % (o, k, r, scen) for k in range(1, s + 1)]
    if len(single) > n_single:
        single = rnd.sample(single, n_single)
    out += single
    for i in range(n_random):
        o = rnd.randrange(nt)
        s = steps_of(base[o])
        kind = i % 4
        if kind == 0:
            k = rnd.choice((2, 2, 3))
            at = sorted(rnd.randrange(1, s + s // 2) for _ in range(k))
            out.append("order=%d at=%s %s" % (o, ",".join("%d:%d" % (a, rnd.randrange(1, nt) if nt > 1 else 1) for a in at), scen))
        elif kind == 1:
            out.append("order=%d seed=%d psync=%.2f %s" % (o, rnd.randrange(1 << 30), rnd.choice((0.1, 0.3, 0.6, 0.9)), scen))
        elif kind == 2:
            out.append("order=%d seed=%d psync=%.2f pmem=%.3f %s" % (o, rnd.randrange(1 << 30), rnd.choice((0.1, 0.4)), rnd.choice((0.002, 0.01, 0.05)), scen))
        else:
            out.append("order=%d seed=%d pmem=%.2f %s" % (o, rnd.randrange(1 << 30), rnd.choice((0.1, 0.3, 0.5)), scen))
    return out


def validate(check, traces, module="CacheTrace", extra=None, timeout=600):
    """indices of the traces that the specification rejects, with the event"""
    if not traces:
        return []
    path = os.path.join(check.work, "traces-%d.json" % id(traces))
    with open(path, "w") as f:
        json.dump(traces, f)
    r = tlc.run(module, tlc.config(extra or {}, invariants=["Verdict"]), check.work, env={"TRACES": path}, timeout=timeout)
    os.unlink(path)
    if not r.ok:
        raise tlc.TLCError(module + ": " + tlc.tail(r.out))
    check.tlc(r)
    verdict = {v["t"]: v["i"] for v in r.lines()}
    if len(verdict) != len(traces):
        raise tlc.TLCError("%s: %d verdicts for %d traces" % (module, len(verdict), len(traces)))
    return [(t - 1, i) for t, i in sorted(verdict.items()) if i]


def explore(check, exe, scens, parse, module, amount, extra=None, keep=lambda k: True):
    """executes every scenario under many schedules and validates the different traces against the specification"""
    ns, nr = amount

    def do(scen):
        p = plans(check, scen, exe, ns, nr * (12 if "cold=" in scen else 1))
        o = execute(exe, p)
        return p[:len(o)], o
    seen = {}
    total = 0
    with ThreadPoolExecutor(8) as ex:
        for p, out in ex.map(do, scens):
            total += len(out)
            for a, b in zip(p, out):
                k = (b.split(" steps:")[0], a.split(" ", 1)[1].split("pmem=")[-1].split("psync=")[-1].split("seed=")[-1].split("at=")[-1].split(" ", 1)[-1])
                if k not in seen:
                    seen[k] = (a, b)
    items = list(seen.values())
    check.add("executions", total)
    check.log("%d executions, %d different traces" % (total, len(items)))
    traces = [parse(b) for _, b in items]
    confirmed = rejected = 0
    for n in range(0, len(traces), 4000):
        for t, i in validate(check, traces[n:n + 4000], module, extra):
            rejected += 1
            if confirmed >= REPORT:
                continue
            a, b = items[n + t]
            ev = traces[n + t][i - 1]
            again = execute(exe, [a])[0]          # the same schedule again
            if validate(check, [parse(again)], module, extra) or ev["e"] != "hang":
                confirmed += 1
                check.violation("schedule '%s'\n%s\nis rejected at event %d: %s" % (a, b[:1500], i, ev), {"input": a, "events": b, "rejected": i})
        if confirmed >= REPORT:
            break
    if rejected:
        check.log("%d traces rejected" % rejected)
    check.add("traces_validated_against_impl", len(traces))
    if items:
        check.sample({"schedule": items[-1][0], "events": items[-1][1]})
        check.sample({"schedule": items[len(items) // 2][0], "events": items[len(items) // 2][1]})
    check.assumptions += ["interleavings are sequentially consistent, switching between threads only at instrumented memory accesses, locks and atomics",
                          "threads are not preempted inside uninstrumented library code"]
