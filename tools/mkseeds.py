#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seedlist/*.py, confirming each one in
a scratch copy of /repo: applies, builds, passes the stable tests, the demo
passes without it and fails with it.  Usage: mkseeds.py [ID ...]"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys, types
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "py"))
try:
    import numba
except ImportError:
    nb = types.ModuleType("numba")
    nb.njit = lambda *a, **k: a[0] if a and callable(a[0]) else (lambda f: f)
    nb.jit = nb.njit
    sys.modules["numba"] = nb
import logging, warnings
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
import numpy as np


def need(cond, msg):
    if not cond:
        print("FAILED:", msg)
        sys.exit(1)


class Comm:
    """One rank of a serial world."""
    size, rank = 1, 0
    def bcast(self, x, root=0): return x
    def scatter(self, x, root=0): return x[0]
    def gather(self, x, root=0): return [x]
    def allgather(self, x): return [x]
    def reduce(self, x, **k): return x
    def allreduce(self, x, *a, **k): return x
    def Allreduce(self, a, b, *r, **k):
        if not isinstance(a, (int, type(None))) and hasattr(a, "shape"):
            b[...] = a
    def Reduce(self, a, b, *r, **k): self.Allreduce(a, b)
    def Bcast(self, *a, **k): pass
    def Barrier(self): pass
    barrier = Barrier
    def Get_rank(self): return 0
    def Get_size(self): return 1


'''


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                          text=True, **k)


def main():
    want = set(sys.argv[1:])
    seeds = []
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seedlist/*.py"))):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        seeds += m.SEEDS
    bad = 0
    for s in seeds:
        if want and s["id"] not in want:
            continue
        sc = "/tmp/seedcopy"
        shutil.rmtree(sc, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", sc], check=True)
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(PRE + s["demo"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport PYTHONHASHSEED=0 OMP_NUM_THREADS=1\n'
                    'exec timeout 250 /opt/venv/bin/python '
                    '"$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        ok = []
        r0 = run(f"bash {d}/demo.sh", sc)
        ok.append(r0.returncode == 0)
        for fn, old, new in s["edits"]:
            p = os.path.join(sc, fn)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], fn, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = run("git diff", sc).stdout
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        r1 = run(f"bash {d}/demo.sh", sc)
        ok.append(r1.returncode != 0)
        r2 = run("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=py "
                 "/opt/venv/bin/python -m pytest -q -p no:cacheprovider "
                 "tests/test_catalog.py tests/test_mpi_utils.py", sc)
        ok.append("4 passed" in r2.stdout)
        r3 = run("/opt/venv/bin/python -m compileall -q py", sc)
        ok.append(r3.returncode == 0)
        ok.append(run(f"git apply --check {d}/patch.diff",
                      "/repo").returncode == 0)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump(dict(property=s["property"], needs=s["needs"],
                           what_it_breaks=s["breaks"]), f, indent=1)
        print(s["id"], s["property"], "OK" if all(ok) else f"BAD {ok}")
        if not all(ok):
            bad += 1
            print(r0.stdout[-500:], r0.stderr[-800:], "|| with:",
                  r1.stdout[-300:], r1.stderr[-300:], r2.stdout[-300:])
        shutil.rmtree(sc, ignore_errors=True)
    return bad


sys.exit(main())
