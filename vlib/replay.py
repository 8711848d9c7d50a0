"""Replays behaviours whose expected answers are expressions (spec/Terms.tla)."""
import math
from concurrent.futures import ThreadPoolExecutor
from .driver import Driver, tokens, close
from . import terms


class Want:
    """the expected answer to one command: numbers, or a refusal, or a text"""
    def __init__(self, values=None, exc=None, text=None, what="", tol=1e-8, absol=1e-13, check=None):
        self.values, self.exc, self.text, self.what, self.tol, self.absol, self.check = values, exc, text, what, tol, absol, check

    def bad(self, got):
        """None, or what is wrong with the answer"""
        if self.check:
            return self.check(got)
        if self.exc:
            return None if got.startswith("EXC") else "accepted, where it is to be refused"
        if got.startswith("EXC") or got.startswith("DIED"):
            return "refused: " + got
        if self.text is not None:
            return None if got == self.text else "%s where it is to be %s" % (got, self.text)
        if self.values is None:
            return None
        g = [x for x in tokens(got) if not isinstance(x, str)]
        if len(g) != len(self.values):
            return "%d numbers where %d are due: %s" % (len(g), len(self.values), got)
        for i, (a, b) in enumerate(zip(g, self.values)):
            if b is not None and not close(a, b, self.tol, self.absol):
                return "number %d is %r, which has to be %r (%s)" % (i, a, b, got[:300])
        return None


def f(x):
    return "nan" if math.isnan(x) else repr(float(x))


def fs(xs):
    xs = list(xs)
    return " ".join([str(len(xs))] + [f(x) for x in xs])


def replay(exe, behaviours, steps, env=None, procs=8, report=3, new_driver=None):
    """steps(behaviour) yields (command, Want); yields (commands, got, why) of those that fail; those that end the program are tried again in a fresh one"""
    mk = new_driver or (lambda: Driver(exe, env=env))

    def one(drv, seq):
        out, err = drv.batch(["reset"] + [c for c, w in seq])
        out = out[1:]
        for i, (c, w) in enumerate(seq):
            got = out[i] if i < len(out) else "DIED " + str(err)
            why = w.bad(got)
            if why:
                return [x for x, _ in seq[:i + 1]], got, (w.what + ": " if w.what else "") + why, err
        return None if not err else ([c for c, w in seq], "DIED " + err, err, err)

    def part(bs):
        drv, bad = mk(), []
        for b in bs:
            if len(bad) >= report:
                break
            seq = list(steps(b))
            r = one(drv, seq)
            if r:
                drv.forget()
                drv = mk()
                # a wrong answer is one, whether or not it comes again; that the program ends may be the sandbox's doing
                again = one(drv, seq)
                if again or not r[1].startswith("DIED"):
                    bad.append((again or r)[:2] + ((again or (None, None, r[2] + " (not every time)"))[2],))
                    drv.forget()
                    drv = mk()
        end = drv.close()
        if end and not bad:
            bad.append(([], "DIED", "at the end: " + end))
        return bad
    with ThreadPoolExecutor(procs) as ex:
        return [x for r in ex.map(part, [behaviours[i::procs] for i in range(procs)]) for x in r]


def judge(check, exe, behaviours, steps, label, **kw):
    bad = replay(exe, behaviours, steps, **kw)
    for cmds, got, why in bad:
        check.violation("%s: after\n%s\n%s" % (label, "\n".join(c[:200] for c in cmds[-12:]), why), {"commands": cmds, "got": got, "why": why})
    check.add("traces_validated_against_impl", len(behaviours))
    check.add(label.replace(" ", "_"), len(behaviours))
    if behaviours:
        check.sample({label: [c for c, w in steps(behaviours[-1])][:30]})
    return bad
