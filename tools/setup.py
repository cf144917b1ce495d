"""Sanity of the tool chain (nothing is installed or kept): the verifier venv, clang and the repository's venv must answer."""
import subprocess, sys, shutil
for c in (["python3-vt", "-c", "import z3"], ["/opt/venv/bin/python", "-c", "import jax, sympy, pybind11, mpmath"], ["clang++", "--version"], ["g++", "--version"]):
    r = subprocess.run(c, capture_output=True, text=True)
    if r.returncode:
        print("missing:", c, r.stderr[-500:]); sys.exit(1)
print("setup ok")
