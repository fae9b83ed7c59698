#!/opt/venv/bin/python
"""run_seeds.py [ids...]: applies each planted bug to a scratch copy and runs the property's quick
check on it (DANY_REPO); prints caught / missed.  A development aid, not a check."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrun"
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
for s in ids:
    d = f"{HERE}/seeded/{s}"
    pid = json.load(open(d + "/meta.json"))["property"]
    if os.path.exists(W):
        shutil.rmtree(W)
    shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns("figures", "etc", "data", "examples"))
    p = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=W, capture_output=True, text=True)
    if p.returncode:
        print(s, "patch does not apply", p.stderr[:200]); continue
    t = time.time()
    p = subprocess.run([HERE + "/check.py", pid, "quick"], capture_output=True, text=True, timeout=900,
                       env=dict(os.environ, DANY_REPO=W, SYMX_EVIDENCE="/tmp/seedrun-ev", VERIF_SEED="1"))
    print(s, pid, "caught" if "VIOLATION" in p.stdout else "MISSED", f"{time.time()-t:.0f}s",
          "" if p.returncode in (0, 1) else f"rc={p.returncode}",
          [l for l in p.stdout.split("\n") if "INCOMPLETE" in l][:2] if "VIOLATION" not in p.stdout else "", flush=True)
for x in (W, "/tmp/seedrun-ev"):
    if os.path.exists(x):
        shutil.rmtree(x)
