#!/usr/bin/env python3
"""mut.py FILE: tries one-line changes (outside /repo) against the checks.  FILE: Python, MUTANTS = [(file, old, new, occurrence, "P11 P12")]"""
import os, shutil, subprocess, sys, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ms = runpy.run_path(sys.argv[1])["MUTANTS"]
only = [int(x) for x in sys.argv[2:]]
for i, (f, old, new, k, props) in enumerate(ms):
    if only and i not in only:
        continue
    d = "/tmp/mut/repo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("src", "parser", "scripts", "linux", "lib"):
        if os.path.isdir("/repo/" + x):
            shutil.copytree("/repo/" + x, d + "/" + x, symlinks=True)
    for x in os.listdir("/repo"):
        if os.path.isfile("/repo/" + x):
            shutil.copy("/repo/" + x, d)
    p = d + "/" + f
    s = open(p).read()
    parts = s.split(old)
    if len(parts) <= k:
        print(i, "NOT FOUND", f, old); continue
    s = old.join(parts[:k]) + new + old.join(parts[k:]) if k else new.join(parts)
    open(p, "w").write(s)
    for prop in props.split():
        r = subprocess.run(["timeout", "900", "python3", "run.py", prop], cwd=VERIF, env=dict(os.environ, SLAT_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode(errors="replace")
        res = "caught" if r.returncode == 1 and "VIOLATION property=" + prop in out else "MISSED" if r.returncode == 0 else "ERROR rc=%d %s" % (r.returncode, out[-600:])
        print(i, prop, res, "|", f, old.strip().replace("\n", " ")[:60], "->", new.strip().replace("\n", " ")[:60], out.strip().splitlines()[-1][:60] if out.strip() else "", flush=True)
shutil.rmtree("/tmp/mut", ignore_errors=True)
