"""Offline set-up: nothing to build; check that the interpreters and solvers are there."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
os.makedirs(os.path.join(V, "replays"), exist_ok=True)
e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
a = subprocess.call(["/opt/venv/bin/python", "-c", "import numpy, scipy, astropy, photutils"], env=e)
b = subprocess.call(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3, cvc5; print(z3.get_version_string())"], env=e)
sys.exit(1 if a or b else 0)
