"""add_fixed.py COMMIT PROPERTY TEXT: record a repaired defect in known_findings.json"""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
L = json.load(open(p))
h, pid, t = sys.argv[1:4]
L.append(dict(id="fixed-" + h, property=pid, status="fixed", commit=h, what=t,
              line=f"fixed: property={pid} {h} {t}"))
json.dump(L, open(p, "w"), indent=1)
