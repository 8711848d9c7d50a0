"""Evaluates the expressions of spec/Terms.tla in floating point."""
import math
from statistics import NormalDist
_nd = NormalDist()
INF = math.inf


def phi(z):
    if math.isnan(z):
        return z
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def phiinv(p):
    if math.isnan(p) or p < 0 or p > 1:
        return math.nan
    if p == 0:
        return -INF
    if p == 1:
        return INF
    return _nd.inv_cdf(p)


def ln(x):
    return -INF if x == 0 else math.nan if not x > 0 else math.log(x) if x != INF else INF


def exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def div(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(INF, a) * math.copysign(1.0, b)
    return a / b


def power(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return INF
    except (ValueError, ZeroDivisionError):
        return math.nan


def evaluate(t, env=None):
    op = t["op"]
    if op == "q":
        return t["n"] / t["d"]
    if op == "ref":
        return env[t["k"]]
    if op == "nan":
        return math.nan
    if op == "if":
        return evaluate(t["a"] if evaluate(t["c"], env) else t["b"], env)
    if op == "bool":
        return bool(t["a"])
    a = evaluate(t["a"], env)
    if op == "and":
        return bool(a) and bool(evaluate(t["b"], env))
    if op == "or":
        return bool(a) or bool(evaluate(t["b"], env))
    if op == "not":
        return not a
    if op in UNARY:
        return UNARY[op](a)
    return BINARY[op](a, evaluate(t["b"], env))


UNARY = {"exp": exp, "ln": ln, "Phi": phi, "PhiInv": phiinv, "abs": abs, "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan}
BINARY = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": div, "pow": power,
          "max": lambda a, b: max(a, b) if not (math.isnan(a) or math.isnan(b)) else math.nan,
          "min": lambda a, b: min(a, b) if not (math.isnan(a) or math.isnan(b)) else math.nan,
          "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b}


def show(t):
    op = t["op"]
    if op == "q":
        return "%d/%d" % (t["n"], t["d"]) if t["d"] != 1 else str(t["n"])
    if op == "ref":
        return "<%s>" % t["k"]
    if op == "nan":
        return "nan"
    if op == "bool":
        return str(bool(t["a"]))
    return "%s(%s)" % (op, ", ".join(show(t[k]) for k in ("c", "a", "b") if k in t))
