#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a specification of edits: plant.py SPEC.py (development aid; no check uses it).

SPEC.py calls bug(id, property, needs, breaks, [(file, old, new), ...], demo_source)."""
import json, os, subprocess, sys, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "..", "seeded")
DEMO_SH = """#!/bin/bash
# exit 0 when the property holds on the tree in the current directory, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$PWD"
exec /opt/venv/bin/python -B "$D/demo.py"
"""

def bug(id, prop, needs, breaks, edits, demo):
    tmp = tempfile.mkdtemp()
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % tmp, shell=True)
        subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=tmp)
        for f, old, new in edits:
            p = os.path.join(tmp, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=tmp, text=True)
    finally:
        shutil.rmtree(tmp)
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("planted", id)

if __name__ == "__main__":
    for s in sys.argv[1:]:
        exec(compile(open(s).read(), s, "exec"), dict(bug=bug, PREAMBLE=open(os.path.join(HERE, "seeds", "pre.py")).read()))
