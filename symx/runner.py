"""Runs one property's harness: parallel symbolic exploration, replay of
counterexamples on the real code, validation of sampled paths, evidence."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import resource
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
NPROC = int(os.environ.get("SYMX_PROCS", "8"))
EVIDENCE = os.environ.get("SYMX_EVIDENCE", os.path.join(HERE, "evidence"))


def known_for(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == pid
            and f.get("status") == "known"]


def ticks_for(cfg):
    """loop iterations after which a path counts as not terminating"""
    spec = cfg.get("params", {}).get("spec")
    if not isinstance(spec, str):
        return 20000
    from . import grids
    return max(20000, min(20 * grids.info(spec).n ** 2, 2000000))


# ------------------------------------------------------------------ worker
class Worker:
    def __init__(self, pid, tier, seed, known_ids, deadline):
        from . import engine as E
        from . import loader, api
        warnings.filterwarnings("ignore")
        import numpy as np
        np.seterr(all="ignore")
        sys.setrecursionlimit(5000)
        self.E, self.A = E, api
        self.h = importlib.import_module("harness." + pid.lower())
        self.cfgs = self.h.configs(tier)
        self.pkg = loader.Package()
        self.pkg.load("dany")
        self.known_ids = known_ids
        self.deadline = deadline
        self.rng = random.Random(seed)
        self.seed = seed
        self.cur = None
        self.eng = None

    def run(self, item):
        E, A = self.E, self.A
        ci, work, slice_s, nsample = item
        cfg = self.cfgs[ci]
        if self.cur != ci:
            E.reset_tables()
            self.eng = E.Engine(tick_limit=cfg.get("ticks") or ticks_for(cfg), seed=self.seed,
                                solver_timeout_ms=cfg.get("solver_ms", 10000))
            E.set_engine(self.eng)
            self.cur = ci
        eng = self.eng
        eng.deadline = self.deadline
        eng.concrete_index = cfg.get("concrete_index", False)
        sys.setrecursionlimit(cfg.get("recursion", 5000))
        eng.stats = E.Stats()
        eng.candidates = []
        eng.incomplete = {}
        eng.rough = False
        eng.fns = set()
        eng.work = list(work)
        samples = []
        seen = 0
        reached = 0
        t0 = time.time()
        hit = False
        while eng.work:
            if time.time() > self.deadline:
                hit = True
                break
            prefix, model = eng.work.pop()
            eng.start(prefix, model)
            eng.reached = False
            api = A.SymApi(eng, self.pkg, self.known_ids)
            npre = len(eng.work)
            done = False
            try:
                cfg["body"](api, **cfg.get("params", {}))
                eng.flush()
                done = True
                eng.stats.paths += 1
            except E.PathInfeasible:
                eng.stats.infeasible += 1
            except E.PathAbort as e:
                try:
                    eng.flush()
                except E.PathEnd:
                    pass
                eng.stats.aborted += 1
                eng.note_incomplete("path outside the encodable fragment: " + e.reason)
                samples.append(self.sample(eng, cfg, None))
            except E.TickLimit:
                eng.stats.aborted += 1
                eng.candidates.append(E.Candidate("ticks", "terminates", self.nice(eng),
                                                  "loop bound exceeded"))
            except E.DeadlineHit:
                hit = True
                eng.work.append((prefix, model))
                break
            except A.NotEncodable as e:
                eng.stats.aborted += 1
                eng.note_incomplete("not encodable: " + str(e))
            except RecursionError as e:
                eng.stats.aborted += 1
                eng.candidates.append(E.Candidate("exception", "raises", self.nice(eng),
                                                  "RecursionError"))
            except Exception as e:
                eng.stats.aborted += 1
                eng.candidates.append(E.Candidate(
                    "exception", "raises", self.nice(eng),
                    "".join(traceback.format_exception(e))[-1800:]))
            if done:
                if eng.reached:
                    reached += 1
                seen += 1
                # reservoir sampling of paths to validate on the real code
                if len(samples) < nsample:
                    samples.append(self.sample(eng, cfg, eng.observed))
                elif nsample and self.rng.random() < nsample / (4.0 * seen):
                    samples[self.rng.randrange(nsample)] = self.sample(eng, cfg, eng.observed)
            if eng.candidates:
                break
            if time.time() - t0 > slice_s:
                break
        return dict(ci=ci, work=eng.work, stats=eng.stats.__dict__,
                    cands=[dict(kind=c.kind, label=c.label,
                                model=A.enc_model(c.model), detail=str(c.detail or ""),
                                alt=A.enc_model(getattr(c, "alt", None)))
                           for c in eng.candidates],
                    incomplete=eng.incomplete, fns=sorted(eng.fns), reached=reached,
                    samples=[s for s in samples if s], hit=hit, rough=eng.rough,
                    maxrss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss)

    def nice(self, eng):
        try:
            return eng.nice_model() or eng.model
        except Exception:
            return eng.model

    def sample(self, eng, cfg, observed):
        m = self.nice(eng)
        if m is None:
            return None
        obs = None
        if observed is not None:
            try:
                obs = [(n, self.A.eval_snap(v, m)) for n, v in observed]
            except Exception:
                obs = None
        return dict(config=cfg["name"], model=self.A.enc_model(m), obs=obs,
                    reals=[k for k, v in eng.vars.items() if v[1] == "real"])


def worker_main(conn, pid, tier, seed, known_ids, deadline):
    try:
        w = Worker(pid, tier, seed, known_ids, deadline)
        conn.send(("ready", None))
        while True:
            item = conn.recv()
            if item is None:
                return
            try:
                conn.send(("done", w.run(item)))
            except Exception as e:
                conn.send(("error", "".join(traceback.format_exception(e))))
    except (EOFError, KeyboardInterrupt):
        pass
    except BaseException as e:
        try:
            conn.send(("error", "".join(traceback.format_exception(e))))
        except Exception:
            pass


# ------------------------------------------------------------------ replay
def batch(jobs, timeout=600):
    """concrete runs in a fresh process"""
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix="symx-")
    fi, fo = os.path.join(d, "in.json"), os.path.join(d, "out.json")
    try:
        with open(fi, "w") as f:
            json.dump(jobs, f)
        p = subprocess.run([PY, "-B", os.path.join(HERE, "symx", "replay.py"), "--batch", fi, fo],
                           capture_output=True, text=True, timeout=timeout,
                           env=dict(os.environ, PYTHONHASHSEED="0"))
        if not os.path.exists(fo):
            return [dict(status="crash", failed=[], observed=[], nchecks=0,
                         detail=p.stderr[-1500:])] * len(jobs)
        return json.load(open(fo))
    except subprocess.TimeoutExpired:
        return [dict(status="crash", failed=[], observed=[], nchecks=0,
                     detail="batch timeout")] * len(jobs)
    finally:
        for x in (fi, fo):
            if os.path.exists(x):
                os.remove(x)
        os.rmdir(d)


def batch_parallel(jobs, timeout=600):
    n = max(1, min(NPROC, (len(jobs) + 7) // 8))
    if n == 1:
        return batch(jobs, timeout)
    from concurrent.futures import ThreadPoolExecutor
    parts = [list(range(i, len(jobs), n)) for i in range(n)]
    out = [None] * len(jobs)
    with ThreadPoolExecutor(n) as ex:
        for idx, res in zip(parts, ex.map(lambda ix: batch([jobs[i] for i in ix], timeout), parts)):
            for i, r in zip(idx, res):
                out[i] = r
    return out


def float_exact(model):
    """inputs are exactly representable, so that only the real code's own
    rounding separates it from the symbolic run"""
    from fractions import Fraction
    for v in model.values():
        if isinstance(v, str):
            q = Fraction(v)
            if Fraction(float(q)) != q:
                return False
    return True


def awkward(model, rng, k, reals=()):
    """the model with its reals moved by a common factor and offset to values that are no short
    binary fractions (their order is kept)"""
    from fractions import Fraction
    f = Fraction(rng.choice([1, 3, 7]), rng.choice([1, 10, 9]))
    d = Fraction(rng.randrange(10 ** 6), 997) * (k % 3)
    out = {}
    for n, v in model.items():
        out[n] = str(Fraction(v) * f + d) if isinstance(v, str) or n in reals else v
    return out


# ------------------------------------------------------------------ main
def main(pid, tier=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.time()
    sys.path.insert(0, HERE)
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True
    h = importlib.import_module("harness." + pid.lower())
    cfgs = h.configs(tier)
    budget = getattr(h, "BUDGET", {}).get(tier, 300 if tier == "quick" else 1500)
    budget = float(os.environ.get("SYMX_BUDGET", budget))
    deadline = t_start + budget
    known = known_for(pid)
    known_ids = [f["id"] for f in known]
    os.makedirs(EVIDENCE, exist_ok=True)

    # 1. known findings: do they still show on the real code?
    known_lines = []
    if known:
        res = batch([dict(pid=pid, config=f["replay"]["config"], model=f["replay"]["inputs"],
                          known=[], timeout=10) for f in known])
        for f, r in zip(known, res):
            if r["failed"]:
                known_lines.append(f"KNOWN-FINDING: property={pid} {f['id']} {f['what']}")
    for line in known_lines:
        print(line)

    # 2. symbolic exploration
    ctx = mp.get_context("fork")
    ncfg = len(cfgs)
    queue = []            # (ci, work)
    for ci in range(ncfg):
        queue.append((ci, [([], {})]))
    agg = {ci: dict(paths=0, infeasible=0, aborted=0, reached=0, incomplete={}, done=False,
                    pending=1) for ci in range(ncfg)}
    from collections import Counter
    stats = Counter()
    fns, samples, cands, errors = set(), {}, [], []
    outstanding = Counter()
    procs = []
    for k in range(min(NPROC, max(1, NPROC))):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker_main,
                        args=(b, pid, tier, seed + k, known_ids, deadline), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    idle = []
    busy = {}
    confirmed = None
    unrep = []
    alive = {a: p for p, a in procs}
    hit = False
    nrep = 0
    rough = set()

    def report(c, ci):
        """replay a candidate; -> dict if reproduced"""
        name = cfgs[ci]["name"]
        models = [c["model"]] + ([c["alt"]] if c.get("alt") else [])
        jobs = [dict(pid=pid, config=name, model=m, known=known_ids, timeout=20) for m in models]
        rs = batch(jobs, timeout=120)
        for j, r in zip(jobs, rs):
            if r["failed"]:
                return dict(config=name, model=j["model"], failed=r["failed"],
                            label=c["label"], detail=c["detail"])
        c["status"] = [r["status"] for r in rs]
        c["config"] = name
        c["rdetail"] = [r.get("detail", "") for r in rs]
        return None

    last_cfg = {}
    while alive and confirmed is None:
        # dispatch
        while idle and queue:
            a = idle.pop()
            pick = None
            lc = last_cfg.get(a)
            # prefer unstarted/other work in order; keep the same config if available
            for qi, (ci, w) in enumerate(queue):
                if ci == lc:
                    pick = qi
                    break
            if pick is None:
                pick = 0
            # but never starve: the first queued config has priority every time
            if queue[0][0] != lc and outstanding[queue[0][0]] == 0:
                pick = 0
            ci, w = queue.pop(pick)
            sl = 0.4 if len(queue) < NPROC else 2.0
            nsamp = 3 if len(samples.get(ci, ())) < 12 else (1 if len(samples[ci]) < 24 else 0)
            a.send((ci, w, sl, nsamp))
            busy[a] = (ci, w)
            last_cfg[a] = ci
            outstanding[ci] += 1
        if not busy and not queue and len(idle) == len(alive):
            break
        if time.time() > deadline + 30:
            hit = True
            break
        for a in mpc.wait(list(alive), timeout=1.0):
            try:
                tag, r = a.recv()
            except (EOFError, ConnectionResetError):
                if a in busy:
                    ci, w = busy.pop(a)
                    outstanding[ci] -= 1
                    errors.append("worker died")
                    agg[ci]["incomplete"]["worker process died (memory?)"] = 1
                alive.pop(a)
                continue
            if tag == "ready":
                idle.append(a)
                continue
            if tag == "error":
                errors.append(r)
                if a in busy:
                    ci, _ = busy.pop(a)
                    outstanding[ci] -= 1
                    agg[ci]["incomplete"]["engine error"] = 1
                    idle.append(a)
                else:
                    alive.pop(a)
                continue
            ci, _ = busy.pop(a)
            outstanding[ci] -= 1
            idle.append(a)
            g = agg[ci]
            for k, v in r["stats"].items():
                stats[k] += v
            g["paths"] += r["stats"]["paths"]
            g["infeasible"] += r["stats"]["infeasible"]
            g["aborted"] += r["stats"]["aborted"]
            g["reached"] += r["reached"]
            for k, v in r["incomplete"].items():
                g["incomplete"][k] = g["incomplete"].get(k, 0) + v
            fns.update(r["fns"])
            samples.setdefault(ci, []).extend(r["samples"])
            hit = hit or r["hit"]
            if r["rough"]:
                rough.add(ci)
            for c in r["cands"]:
                if nrep < 12:
                    nrep += 1
                    conf = report(c, ci)
                    if conf:
                        confirmed = conf
                        break
                    unrep.append(c)
                else:
                    c["config"] = cfgs[ci]["name"]
                    c["status"] = ["not replayed"]
                    unrep.append(c)
            if confirmed:
                break
            if r["work"]:
                if r["hit"]:
                    queue.append((ci, r["work"]))
                    g["incomplete"]["time budget reached"] = 1
                else:
                    w = r["work"]
                    # split: hand shallow items out when workers are idle
                    want = max(1, len(idle) - len(queue))
                    if want > 1 and len(w) > 1:
                        k = min(len(w), want + 1)
                        chunks = [w[i::k] for i in range(k)]
                        queue[0:0] = [(ci, ch) for ch in chunks if ch]
                    else:
                        queue.insert(0, (ci, w))
            if time.time() > deadline:
                hit = True
        if time.time() > deadline and queue:
            hit = True
            for ci, w in queue:
                agg[ci]["incomplete"]["time budget reached"] = 1
            queue = []
    for p, a in procs:
        try:
            if p.is_alive():
                p.kill()
        except Exception:
            pass
    for p, a in procs:
        p.join(timeout=5)
    t_sym = time.time() - t_start

    # 3. sampled paths against the real implementation
    validated = mismatched = inexact = 0
    mism = []
    sample_out = []
    if confirmed is None:
        jobs, meta = [], []
        for ci, ss in samples.items():
            for s in ss[:24]:
                jobs.append(dict(pid=pid, config=s["config"], model=s["model"],
                                 known=known_ids, timeout=10))
                meta.append((ci, s))
        from .api import same_snap
        for (ci, s), r, j in zip(meta, batch_parallel(jobs), jobs):
            if r["failed"]:
                confirmed = dict(config=s["config"], model=s["model"], failed=r["failed"],
                                 label=r["failed"][0][0],
                                 detail="sampled path violates on the real code")
                break
            if r["status"] in ("ok", "assume") and not float_exact(s["model"]):
                inexact += 1
                continue
            if r["status"] != "ok":
                mismatched += 1
                mism.append(dict(config=s["config"], inputs=s["model"], status=r["status"],
                                 detail=r.get("detail", "")[-400:]))
                continue
            if s["obs"] is None:
                continue
            obs = json.loads(json.dumps(_js(s["obs"])))
            if same_snap(obs, r["observed"]):
                validated += 1
                if len(sample_out) < 3 and (ci % 2 == 0 or len(sample_out) == 0):
                    sample_out.append(dict(config=s["config"], inputs=s["model"],
                                           observed=_trim(r["observed"]),
                                           checks_passed=r["nchecks"]))
            else:
                mismatched += 1
                mism.append(dict(config=s["config"], inputs=s["model"],
                                 symbolic=_trim(obs), real=_trim(r["observed"])))

    # values that went through single precision: run the real code on awkward
    # neighbours of the sampled inputs
    if confirmed is None and rough:
        rng = random.Random(seed)
        jobs = []
        for ci in rough:
            for s in samples.get(ci, ())[:24]:
                for k in range(6):
                    jobs.append(dict(pid=pid, config=s["config"], known=known_ids, timeout=10,
                                     model=awkward(s["model"], rng, k, s.get("reals", ()))))
        for j, r in zip(jobs[:3000], batch_parallel(jobs[:3000])):
            if r["failed"]:
                confirmed = dict(config=j["config"], model=j["model"], failed=r["failed"],
                                 label=r["failed"][0][0],
                                 detail="single precision: sampled input violates on the real code")
                break

    # 4. verdict
    reprod_path = None
    if confirmed:
        reprod_path = os.path.join(EVIDENCE, f"replay-{pid}.json")
        with open(reprod_path, "w") as f:
            json.dump(dict(property=pid, config=confirmed["config"],
                           inputs=confirmed["model"], label=confirmed["label"],
                           failed=confirmed["failed"], detail=confirmed["detail"],
                           known=known_ids,
                           command=f"{PY} symx/replay.py {reprod_path}"), f, indent=1)
    asserts_unrep = [c for c in unrep if c["kind"] == "assert"]
    other_unrep = [c for c in unrep if c["kind"] != "assert"]
    for c in other_unrep:
        for g, cf in zip(agg.values(), cfgs):
            if cf["name"] == c.get("config"):
                g["incomplete"]["path outside the shim: " + c["detail"].strip().split("\n")[-1][:120]] = 1
    vac = [cfgs[ci]["name"] for ci, g in agg.items()
           if g["reached"] == 0 and not confirmed and not g["incomplete"]]
    inc = {cfgs[ci]["name"]: g["incomplete"] for ci, g in agg.items() if g["incomplete"]}
    exhaustive = not inc and not confirmed and not hit and not errors and not asserts_unrep
    meta = getattr(h, "META", {})
    cov = dict(
        states=stats["paths"] + stats["infeasible"] + stats["aborted"],
        transitions=stats["branches"],
        traces_validated_against_impl=validated,
        traces_mismatched=mismatched,
        traces_inputs_not_float=inexact,
        samples=sample_out or [dict(note="no sample: run stopped at a violation")],
        exhaustive=exhaustive,
        paths_completed=stats["paths"],
        paths_infeasible=stats["infeasible"],
        paths_not_encodable=stats["aborted"],
        solver_queries=stats["queries"],
        solver_sat=stats["sat"], solver_unsat=stats["unsat"],
        solver_unknown=stats["unknown"],
        solver_seconds=round(stats["solver_s"], 2),
        assertions_checked=stats["assertions"],
        assertion_queries=stats["assert_queries"],
        assertions_discharged_by_simplification=stats["assert_trivial"],
        functions_encoded=sorted(fns),
        bounds=meta.get("bounds", ""),
        outside=meta.get("outside", ""),
        configurations=[dict(name=c["name"], paths=agg[ci]["paths"],
                             infeasible=agg[ci]["infeasible"],
                             complete=not agg[ci]["incomplete"],
                             incomplete=agg[ci]["incomplete"])
                        for ci, c in enumerate(cfgs)],
        known_findings=known_lines,
        unreproduced_candidates=[dict(config=c.get("config"), label=c["label"],
                                      kind=c["kind"], inputs=c["model"],
                                      status=c.get("status"),
                                      rdetail=c.get("rdetail"),
                                      detail=c["detail"][-900:]) for c in unrep[:6]],
        mismatches=mism[:4],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t_start, 2),
              violations=1 if confirmed else 0)
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(_js(ev), f, indent=1)
    print(f"{pid} [{tier}] paths={stats['paths']} infeasible={stats['infeasible']} "
          f"not-encodable={stats['aborted']} branches={stats['branches']} "
          f"queries={stats['queries']} (unsat {stats['unsat']}, unknown {stats['unknown']}) "
          f"solver={stats['solver_s']:.1f}s asserts={stats['assertions']} "
          f"validated={validated} mismatched={mismatched} exhaustive={exhaustive} "
          f"symbolic={t_sym:.1f}s wall={time.time() - t_start:.1f}s")
    if confirmed:
        print(f"  configuration {confirmed['config']}: {confirmed['failed'][:3]}")
        print(f"VIOLATION property={pid} replay={reprod_path}")
        return 1
    for k, v in inc.items():
        print(f"  INCOMPLETE {k}: {v}")
    if errors:
        print("  ERRORS:", errors[0][-1500:])
    if asserts_unrep:
        c = asserts_unrep[0]
        print(f"  INCOMPLETE solver model of {c['label']} in {c.get('config')} did not reproduce on "
              f"the real code (which satisfies the property there): {c['model']} {c.get('status')}")
    if vac:
        print(f"  VACUOUS configurations (harness end not reached): {vac}")
        return 2
    if stats["paths"] == 0 and not inc:
        return 2
    return 0


def _trim(x, n=12):
    if isinstance(x, list):
        return [_trim(y, n) for y in x[:n]]
    return x


def _js(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_js(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    return str(x)
