"""nothing to build: checks that the interpreter, z3 and the package are there"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("DANY_REPO", "/repo"))
from symx import engine, loader
import z3, numpy, flopy, dany
loader.Package().load("dany")
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "flopy", flopy.__version__)
