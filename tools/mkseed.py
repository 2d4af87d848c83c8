#!/usr/bin/env python3
"""tools/mkseed.py: (re)create seeded/<id>/patch.diff from an exact replacement against /repo's HEAD.
usage as a library: seed(id, property, needs, breaks, demo, [(file, old, new), ...])"""
import json, os, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def seed(id, prop, needs, breaks, demo, edits, files=None):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    diff = ""
    bodies = {}
    for f, old, new in edits:
        s = bodies.get(f)
        if s is None:
            s = subprocess.run(["git", "-C", REPO, "show", "HEAD:" + f], capture_output=True, check=True).stdout.decode()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        bodies[f] = s.replace(old, new)
    with tempfile.TemporaryDirectory() as t:
        for f, s in bodies.items():
            orig = subprocess.run(["git", "-C", REPO, "show", "HEAD:" + f], capture_output=True, check=True).stdout.decode()
            for side, txt in (("a", orig), ("b", s)):
                p = os.path.join(t, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(txt)
        diff = subprocess.run(["diff", "-urN", "a", "b"], cwd=t, capture_output=True).stdout.decode()
    diff = "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in diff.split("\n") if not l.startswith("diff -urN"))
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n" + demo.strip() + "\n")
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
