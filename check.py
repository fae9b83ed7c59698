#!/opt/venv/bin/python
"""check.py C01 [quick|thorough]: decide one property (see DESIGN.md)"""
import os
import sys
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("DANY_REPO", "/repo"))
if __name__ == "__main__":
    from symx import runner
    sys.exit(runner.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
