"""Runs harness bodies on concrete inputs against the real code in /repo.

  replay.py FILE.json            one replay; exit 1 if the violation shows
  replay.py --batch IN OUT       many samples
"""
import json
import os
import signal
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("DANY_REPO", "/repo"))
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_one(pid, config, model, known_ids=(), timeout=10):
    import io
    import contextlib
    import importlib
    from symx import api as A
    h = importlib.import_module("harness." + pid.lower())
    cfgs = {c["name"]: c for c in h.configs("thorough")}
    cfgs.update({c["name"]: c for c in h.configs("quick")})
    cfg = cfgs[config]
    api = A.ConcApi(A.dec_model(model), known_ids)
    res = {"failed": [], "status": "ok"}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            cfg["body"](api, **cfg.get("params", {}))
    except Timeout:
        res["status"] = "timeout"
        res["failed"].append(["terminates", f"no result within {timeout} s"])
    except A.AssumeFailed:
        res["status"] = "assume"
    except A.NotEncodable as e:
        res["status"] = "notenc"
        res["detail"] = str(e)
    except A.CodeError as e:
        res["status"] = "raise"
        res["failed"].append(["raises", str(e)])
    except RecursionError as e:
        res["status"] = "raise"
        res["failed"].append(["raises", str(e)])
    except Exception as e:
        import traceback
        res["status"] = "raise"
        tb = traceback.extract_tb(e.__traceback__)
        incode = any(os.sep + "dany" + os.sep in f.filename for f in tb)
        res["detail"] = "".join(traceback.format_exception(e))[-1500:]
        if incode:
            res["failed"].append(["raises", f"{type(e).__name__}: {e}"])
        else:
            res["status"] = "harness-error"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if res["status"] != "assume":
        res["failed"] = [list(x) for x in api.failed] + res["failed"]
    res["observed"] = api.observed
    res["nchecks"] = api.nchecks
    return res


def _jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    return str(x)


def main():
    if sys.argv[1] == "--batch":
        jobs = json.load(open(sys.argv[2]))
        out = []
        for j in jobs:
            out.append(run_one(j["pid"], j["config"], j["model"],
                               j.get("known", ()), j.get("timeout", 10)))
        with open(sys.argv[3], "w") as f:
            json.dump(_jsonable(out), f)
        return 0
    j = json.load(open(sys.argv[1]))
    r = run_one(j["property"], j["config"], j["inputs"], j.get("known", ()),
                j.get("timeout", 20))
    print(json.dumps(_jsonable({k: r[k] for k in r if k != "observed"}), indent=1))
    if r["failed"]:
        for lab, det in r["failed"]:
            print(f"REPRODUCED {lab}: {det}")
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main())
