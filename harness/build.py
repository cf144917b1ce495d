"""Builds /repo's current src/tfc into a scratch directory: build(dst) -> dst (sys.path entry).  The C++ extension is compiled
from the current sources; nothing is written under /repo."""
import os, shutil, subprocess, sys, sysconfig
REPO = os.environ.get("TFC_REPO", "/repo")
VENV = "/opt/venv"
ENV = dict(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig", PYTHONDONTWRITEBYTECODE="1", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def build(dst, ext=True):
    shutil.copytree(os.path.join(REPO, "src", "tfc"), os.path.join(dst, "tfc"), ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyi"))
    if not ext:
        return dst
    u = os.path.join(dst, "tfc", "utils")
    inc = os.path.join(VENV, "lib/python3.12/site-packages/pybind11/include")
    out = os.path.join(u, "BF.cpython-312-x86_64-linux-gnu.so")
    objs, procs = [], []
    for s in sorted(f for f in os.listdir(u) if f.endswith(".cc")):
        o = os.path.join(dst, s + ".o")
        objs.append(o)
        procs.append((s, subprocess.Popen(["g++", "-std=c++20", "-O2", "-fPIC", "-fvisibility=hidden", "-w", "-I", inc, "-I", "/usr/include/python3.12", "-c", os.path.join(u, s), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        t = p.communicate()[0]
        if p.returncode:
            raise RuntimeError(f"compiling {s} failed:\n{t[-3000:]}")
    r = subprocess.run(["g++", "-shared", "-o", out] + objs, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("linking failed:\n" + r.stderr[-2000:])
    return dst


if __name__ == "__main__":
    print(build(sys.argv[1]))
