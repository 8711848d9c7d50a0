"""Runs behaviours against the scripting layer.  Each line of input is one behaviour
{"dir": scratch directory, "steps": [{"x": statements} or {"e": expression}, ...]};
it is run in a process of its own, in that directory, and answered line by line
with {"v": value, "out": text printed} or {"err": exception, "out": ...}, and {"end": ...}."""
import sys, os, io, json, signal
CONTROL = os.dup(1)
os.dup2(2, 1)
import numpy, pyslatcore, pyslat
if os.environ.get("WITH_INTERPRETER"):
    import SlatInterpreter


def plain(v):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, (float, numpy.floating)):
        return "\x01" + repr(float(v))
    if isinstance(v, numpy.integer):
        return int(v)
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (pyslatcore.VectorDouble,)):
        return [plain(x) for x in v]
    return "<%s>" % type(v).__name__


def send(m):
    os.write(CONTROL, (json.dumps(m) + "\n").encode())


def behave(b):
    os.chdir(b["dir"])
    e = os.open("stderr", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(e, 2)
    e = os.open("stdout", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(e, 1)
    sys.stdin.close()
    ns = {"pyslat": pyslat, "pyslatcore": pyslatcore, "np": numpy, "os": os, "sys": sys, "H": {}}
    if os.environ.get("WITH_INTERPRETER"):
        ns["SlatInterpreter"] = SlatInterpreter
    for s in b["steps"]:
        out = io.StringIO()
        sys.stdout = out
        try:
            if "x" in s:
                exec(s["x"], ns)
                r = {"v": None}
            else:
                r = {"v": plain(eval(s["e"], ns))}
        except Exception as ex:
            r = {"err": "%s: %s" % (type(ex).__name__, ex)}
        r["out"] = out.getvalue()
        send(r)


for line in sys.stdin.buffer:
    pid = os.fork()
    if pid == 0:
        signal.alarm(120)
        b = json.loads(line)
        behave(b)
        sys.stdout = sys.__stdout__
        if b.get("exit"):
            sys.exit(0)    # with everything that happens at the end of a program
        os._exit(0)
    _, st = os.waitpid(pid, 0)
    send({"end": "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % os.WEXITSTATUS(st)})
