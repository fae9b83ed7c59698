"""single-process run of one harness configuration (debugging aid):
dbg.py C01 CONFIG [maxpaths]"""
import sys, os, time, traceback, cProfile, pstats
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.environ.get("DANY_REPO", "/repo"))
sys.dont_write_bytecode = True
import importlib, warnings
warnings.filterwarnings("ignore")
from symx import engine as E, loader, api as A
import numpy as np
np.seterr(all="ignore")
pid, cname = sys.argv[1], sys.argv[2]
maxp = int(sys.argv[3]) if len(sys.argv) > 3 else 20
h = importlib.import_module("harness." + pid.lower())
cfgs = {c["name"]: c for t in ("thorough", "quick") for c in h.configs(t)}
cfg = cfgs[cname]
pkg = loader.Package(); pkg.load("dany")
eng = E.Engine(tick_limit=cfg.get("ticks") or __import__("symx.runner",fromlist=["x"]).ticks_for(cfg), seed=1, solver_timeout_ms=cfg.get("solver_ms", 10000))
E.set_engine(eng)
eng.deadline = None
eng.concrete_index = cfg.get("concrete_index", False)
eng.candidates = []; eng.incomplete = {}; eng.fns = set(); eng.work = [([], {})]
import json
known = [f["id"] for f in json.load(open(HERE + "/known_findings.json")) if f["status"] == "known" and f["property"] == pid] if os.path.exists(HERE + "/known_findings.json") else []
n = 0
t0 = time.time()
def go():
    global n
    while eng.work and n < maxp:
        p, m = eng.work.pop()
        eng.start(p, m); eng.reached = False
        api = A.SymApi(eng, pkg, known)
        n += 1
        try:
            cfg["body"](api, **cfg.get("params", {}))
            eng.flush(); eng.stats.paths += 1
        except E.PathInfeasible:
            eng.stats.infeasible += 1
        except E.PathAbort as e:
            print("ABORT", e.reason)
            if os.environ.get("TB"): traceback.print_exc()
        except E.TickLimit:
            print("TICK", eng.nice_model()); break
        except Exception as e:
            s = traceback.format_exc()
            print(s[:3000], "....", s[-2500:])
            print("MODEL", {k: str(v) for k, v in (eng.nice_model() or {}).items()})
            break
        if eng.candidates:
            for c in eng.candidates:
                print("CAND", c.kind, c.label, c.detail, {k: str(v) for k, v in (c.model or {}).items()})
            break
if os.environ.get("PROF"):
    pr = cProfile.Profile(); pr.runcall(go); pstats.Stats(pr).sort_stats("cumtime").print_stats(35)
else:
    go()
print("n", n, "left", len(eng.work), "t", round(time.time() - t0, 2), eng.stats.__dict__, eng.incomplete)
