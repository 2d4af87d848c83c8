#!/opt/veriftools/pyvenv/bin/python3
"""MANIFEST.json from properties.jsonl and the check modules that exist."""
import importlib, json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        m = importlib.import_module(p.lower())
        checks.append(dict(property=p, quick_cmd="./run.py %s --tier quick" % p, thorough_cmd="./run.py %s --tier thorough" % p,
                           technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.LEVEL_NOTE))
    else:
        na.append(dict(property=p, reason="check not built yet (no claim is made); the technique applies, see DESIGN.md"))
json.dump(dict(version=1, setup_cmd="./run.py --setup", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
