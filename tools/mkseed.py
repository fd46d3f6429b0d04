#!/usr/bin/env python3
"""Writes seeded/<id>/ from a description file (python: ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO), and tests it.

usage: mkseed.py DESC.py [...]   """
import json
import os
import runpy
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


for d in sys.argv[1:]:
    ns = runpy.run_path(d)
    out = os.path.join(V, "seeded", ns["ID"])
    os.makedirs(out, exist_ok=True)
    assert not sh("git", "-C", "/repo", "status", "--porcelain", "-uno").stdout.strip(), "repo dirty"
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", "/repo", "diff").stdout
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]),
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"].lstrip())
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    a = sh("bash", os.path.join(out, "demo.sh"), cwd="/repo")
    assert sh("git", "-C", "/repo", "apply", os.path.join(out, "patch.diff")).returncode == 0
    try:
        b = sh("bash", os.path.join(out, "demo.sh"), cwd="/repo")
        with tempfile.TemporaryDirectory() as td:
            sh("bash", "/opt/vp/test.sh", os.path.join(td, "o.json"))
            t = json.load(open(os.path.join(td, "o.json")))
        c = sh("python3", "check.py", ns["PROPERTY"], cwd=V)
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    ok = a.returncode == 0 and b.returncode != 0 and len(t["passed"]) >= 15
    last = [l for l in c.stdout.splitlines() if l.strip()][-1:] or [""]
    print(f"{'OK ' if ok else 'BAD'} {ns['ID']}: clean demo rc={a.returncode} patched rc={b.returncode} tests={len(t['passed'])} "
          f"check {ns['PROPERTY']} rc={c.returncode} {'CAUGHT' if c.returncode == 1 else 'not caught'}")
    if not ok:
        print(a.stderr[-800:], "\n--\n", b.stdout[-500:], b.stderr[-500:])
    if c.returncode != 1:
        print("\n".join(c.stdout.splitlines()[-8:])[:1500])
