"""Behaviours run against the scripting layer (harness/pydrv.py), several at a time."""
import json, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
from . import pybuild
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def value(v):
    if isinstance(v, str):
        return float(v[1:]) if v.startswith("\x01") else v
    if isinstance(v, list):
        return [value(x) for x in v]
    if isinstance(v, dict):
        return {k: value(x) for k, x in v.items()}
    return v


class Answer:
    def __init__(self, m):
        self.v, self.err, self.out = value(m.get("v")), m.get("err"), m.get("out", "")
        self.died = m.get("died")

    def __repr__(self):
        return "DIED %s" % self.died if self.died else self.err if self.err else repr(self.v) + (" printed %r" % self.out[:400] if self.out else "")


class Zygote:
    def __init__(self, work, name, interpreter=False):
        self.dir = os.path.join(work, "py_" + name)
        os.makedirs(self.dir, exist_ok=True)
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(pybuild.paths()), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2")
        env.pop("WITH_INTERPRETER", None)
        if interpreter:
            env["WITH_INTERPRETER"] = "1"
        self.n = 0
        self.p = subprocess.Popen(["/usr/bin/python3", os.path.join(VERIF, "harness", "pydrv.py")], env=env, cwd=self.dir,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(self.dir, "zygote"), "w"))

    def run(self, steps, look=None, exit=False):
        """the answers to the steps, and what look(directory) sees afterwards"""
        self.n += 1
        d = os.path.join(self.dir, "b%d" % self.n)
        os.makedirs(d)
        self.p.stdin.write((json.dumps({"dir": d, "steps": steps, "exit": exit}) + "\n").encode())
        self.p.stdin.flush()
        out = []
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise RuntimeError("the driver ended: " + open(os.path.join(self.dir, "zygote")).read()[-2000:])
            m = json.loads(l)
            if "end" in m:
                break
            out.append(Answer(m))
        err = open(os.path.join(d, "stderr"), errors="replace").read() if os.path.exists(os.path.join(d, "stderr")) else ""
        if m["end"] != "exit 0" or len(out) < len(steps):
            while len(out) < len(steps):
                out.append(Answer({"died": m["end"] + " " + err[-600:]}))
        seen = look(d) if look else None
        shutil.rmtree(d, ignore_errors=True)
        return (out, seen) if look else out

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def zygotes(check, n=8, interpreter=False):
    pybuild.paths()
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda i: Zygote(check.work, "%d%s" % (i, "i" if interpreter else ""), interpreter), range(n)))


def each(zs, items, do, report=3):
    """do(zygote, item) -> violation (what, replay) or None, for all items on all zygotes"""
    found, it, lock = [], iter(list(enumerate(items))), threading.Lock()

    def work(z):
        while True:
            with lock:
                i = next(it, None)
                if i is None or len(found) >= report:
                    return
            r = do(z, i[1])
            if r:
                with lock:
                    found.append((i[0],) + tuple(r))
    with ThreadPoolExecutor(len(zs)) as ex:
        for f in [ex.submit(work, z) for z in zs]:
            f.result()
    return sorted(found, key=lambda x: x[0])[:report]
