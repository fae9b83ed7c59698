#!/opt/venv/bin/python
"""writes MANIFEST.json from the harnesses' META"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    pid = p["id"]
    if pid in NA:
        continue
    h = importlib.import_module("harness." + pid.lower())
    m = h.META
    checks.append(dict(
        property=pid,
        quick_cmd=f"./check.py {pid} quick",
        thorough_cmd=f"./check.py {pid} thorough",
        technique="symbolic execution of the package's source with z3 "
                  "(all paths within the bounds; counterexamples replayed on the real code)",
        level="model_checking",
        level_note="Holds for every value within: " + m["bounds"] + ". Not covered: " + m["outside"]
        + ". Trusts: the numpy/heapq/flopy model of symx (sampled paths of every run are replayed on "
        "the real code and compared), z3. Assumes: " + "; ".join(m.get("assumptions", ["none"])) + "."))
man = dict(version=1,
           setup_cmd="/opt/venv/bin/python -B tools/setup.py",
           checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes="Every check re-reads /repo/dany/*.py and executes it symbolically (see DESIGN.md). "
                 "No hooks in /repo. A counterexample is reported only after it failed on the real "
                 "code. Replay: /opt/venv/bin/python symx/replay.py <path of the VIOLATION line>.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
