import os, re, subprocess, json, shutil, textwrap
DEMO_SH = '''#!/bin/bash
# %s
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
L=/repo/_build/tree/linux/lib
g++ -std=gnu++11 -fopenmp -DBOOST_ALL_DYN_LINK -include functional -w -O1 -I/repo/src "$D/demo.cpp" -o "$W/demo" \\
    -L$L -lslat -lboost_log -lboost_thread -lboost_system -lpthread -lgsl -lgslcblas -lm || exit 1
cd "$W" && LD_LIBRARY_PATH=$L timeout 120 "$W/demo"
'''
PY_SH = '''#!/bin/bash
# %s
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
T=/repo/_build/tree/linux
cd "$W" && LD_LIBRARY_PATH=$T/lib PYTHONPATH=$T/lib:$T/scripts PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$D/demo.py"
'''
def plant(id, prop, edits, demo, needs, breaks, py=False):
    """edits: [(file, old, new)] or with a 4th item: which occurrence (0-based)"""
    d = '/tmp/pl/' + id
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', d])
    for e in edits:
        f, old, new = e[:3]
        p = os.path.join(d, f); s = open(p).read()
        if old not in s:
            # the same lines, with blank and comment lines in between
            m = re.search(r'[ \t]*\n(?:[ \t]*(?:(?://|/\*|\*|#(?!pragma)).*)?\n)*'.join(re.escape(l) for l in old.split('\n')), s)
            if m: old = m.group(0)
        n = s.count(old)
        k = e[3] if len(e) > 3 else 0
        assert n and (n == 1 or len(e) > 3), (id, f, n, old)
        i = -1
        for _ in range(k + 1): i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
        open(p, 'w').write(s)
    diff = subprocess.check_output(['git', '-C', d, 'diff'])
    shutil.rmtree(d)
    o = '/verif/seeded/' + id
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'wb').write(diff)
    open(o + '/demo.sh', 'w').write((PY_SH if py else DEMO_SH) % breaks.split('\n')[0])
    open(o + ('/demo.py' if py else '/demo.cpp'), 'w').write(textwrap.dedent(demo).lstrip())
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
