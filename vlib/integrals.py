"""Evaluates the expressions of spec/Definitions.tla, integrals included, with numpy
(run with python3-vt): reads one JSON expression per line, writes the list of values.

"im" and "edp" run over logarithmic grids, each along its own axis.  The integral of g
against |dF| is the sum of g between the points times the differences of F, for two
spacings, extrapolated."""
import json, sys
import numpy as np
from scipy.special import ndtr, ndtri
np.seterr(all="ignore")

NODES = {"im": np.exp(np.linspace(np.log(1e-7), np.log(1e6), 1201)).reshape(-1, 1),
         "edp": np.exp(np.linspace(np.log(1e-9), np.log(1e7), 1401)).reshape(1, -1)}
AXIS = {"im": 0, "edp": 1}
MIDS = {k: np.sqrt(np.take(v, range(1, v.size), AXIS[k]) * np.take(v, range(0, v.size - 1), AXIS[k])) for k, v in NODES.items()}
BIN = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide, "pow": np.power, "max": np.maximum, "min": np.minimum,
       "lt": np.less, "le": np.less_equal, "eq": np.equal, "and": np.logical_and, "or": np.logical_or}
UN = {"exp": np.exp, "ln": np.log, "sqrt": np.sqrt, "abs": np.abs, "Phi": ndtr, "PhiInv": ndtri, "not": np.logical_not}


def total(g, F, ax):
    w = np.abs(np.diff(F, axis=ax))
    return np.where(w == 0, 0.0, g * w).sum(axis=ax, keepdims=True)


class Evaluator:
    def __init__(self):
        self.nodes, self.free, self.memo, self.ids = [], [], {}, {}

    def intern(self, t):
        op = t["op"]
        if op in ("q", "ref", "bool", "nan"):
            key = (op, t.get("n"), t.get("d"), t.get("k"), t.get("a"))
            free = frozenset([t["k"]]) if op == "ref" else frozenset()
        else:
            kids = tuple(self.intern(t[k]) for k in ("c", "a", "b") if k in t)
            key = (op, t.get("v")) + kids
            free = frozenset().union(*[self.free[k] for k in kids])
            if op == "over":
                free -= {t["v"]}
        if key not in self.ids:
            self.ids[key] = len(self.nodes)
            self.nodes.append(key)
            self.free.append(free)
        return self.ids[key]

    def at(self, i, env):
        """env: which points each variable runs over"""
        k = (i, tuple(sorted((v, e) for v, e in env.items() if v in self.free[i])))
        if k not in self.memo:
            self.memo[k] = self.compute(self.nodes[i], env)
        return self.memo[k]

    def compute(self, n, env):
        op = n[0]
        if op == "q":
            return np.float64(n[1] / n[2])
        if op == "ref":
            return (NODES if env[n[3]] == "n" else MIDS)[n[3]]
        if op == "bool":
            return np.bool_(n[4])
        if op == "nan":
            return np.float64("nan")
        if op == "if":
            return np.where(self.at(n[2], env), self.at(n[3], env), self.at(n[4], env))
        if op == "over":
            v, ax = n[1], AXIS[n[1]]
            F = self.at(n[3], dict(env, **{v: "n"}))
            F = np.broadcast_to(F, np.broadcast_shapes(F.shape, NODES[v].shape))
            fine = total(self.at(n[2], dict(env, **{v: "m"})), F, ax)
            g = self.at(n[2], dict(env, **{v: "n"}))
            g = np.broadcast_to(g, np.broadcast_shapes(g.shape, NODES[v].shape))
            coarse = total(np.take(g, range(1, g.shape[ax], 2), ax), np.take(F, range(0, F.shape[ax], 2), ax), ax)
            return (4 * fine - coarse) / 3
        if op in UN:
            return UN[op](self.at(n[2], env))
        return BIN[op](self.at(n[2], env), self.at(n[3], env))


def main():
    r = []
    for line in sys.stdin:
        e = Evaluator()
        x = np.asarray(e.at(e.intern(json.loads(line)), {}), dtype=float)
        assert x.size == 1, x.shape
        r.append(float(x.reshape(-1)[0]))
    json.dump(r, sys.stdout)


main()
