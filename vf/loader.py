"""Loads the repository's current source, either on the symbolic shims or on
the real libraries (numba and mpi4py are always replaced by stand-ins)."""
import ast
import builtins
import importlib
import os
import sys
import types

import numpy as np

from .terms import Unsupported

REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "py")

_codes = {}


def _find(name):
    p = os.path.join(SRC, *name.split("."))
    if os.path.isdir(p):
        f = os.path.join(p, "__init__.py")
        return (f if os.path.exists(f) else None), True
    return p + ".py", False


def _code(path, sym):
    key = (path, sym)
    if key not in _codes:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        if sym:
            from .rewrite import rewrite
            tree = rewrite(tree)
        _codes[key] = compile(tree, path, "exec")
    return _codes[key]


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(SRC, "qsonic")):
        for f in fs:
            if f.endswith(".py"):
                out.append(os.path.join(d, f))
    return sorted(out)


# ------------------------------------------------------------------ stand-ins
def numba_stub():
    m = types.ModuleType("numba")

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f
    m.njit = m.jit = njit
    m.prange = range
    m.vectorize = m.guvectorize = njit
    return m


class _MPI(types.ModuleType):
    IN_PLACE = "IN_PLACE"
    SUM, MAX, MIN, LAND, LOR = "SUM", "MAX", "MIN", "LAND", "LOR"
    DOUBLE, INT = "DOUBLE", "INT"

    class Comm:
        pass

    class Intracomm:
        pass

    @property
    def COMM_WORLD(self):
        from .world import SoloComm
        return self.__dict__.setdefault("_cw", SoloComm())


def mpi_stub():
    m = types.ModuleType("mpi4py")
    m.MPI = _MPI("mpi4py.MPI")
    return m


class Loader:
    """Private module namespace for one run."""

    def __init__(self, sym, overrides=None):
        self.sym = sym
        self.mods = {}
        self.over = {"numba": numba_stub(), "mpi4py": mpi_stub()}
        self.over["mpi4py.MPI"] = self.over["mpi4py"].MPI
        if sym:
            from . import shims
            self.over.update(shims.modules())
        self.over.update(overrides or {})
        bd = dict(builtins.__dict__)
        bd["__import__"] = self._import
        bd["print"] = lambda *a, **k: None
        if sym:
            from . import shims
            bd.update(shims.builtin_overrides())
        self.bd = bd

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = _find(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = []
        m.__dict__["__builtins__"] = self.bd
        par, _, child = name.rpartition(".")
        if par:
            self.load(par)
        self.mods[name] = m
        try:
            if path is not None:
                if not os.path.exists(path):
                    raise ModuleNotFoundError(f"No module named {name}")
                exec(_code(path, self.sym), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if par:
            setattr(self.mods[par], child, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"]
            for _ in range(level - 1):
                pk = pk.rpartition(".")[0]
            name = pk + ("." + name if name else "")
        if name == "qsonic" or name.startswith("qsonic."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except (ModuleNotFoundError, FileNotFoundError):
                            raise ImportError(
                                f"cannot import name {f} from {name}")
                return m
            return self.mods[name.split(".")[0]]
        if name in self.over:
            m = self.over[name]
            if fromlist:
                return m
            top = name.split(".")[0]
            return self.over.get(top, m)
        top = name.split(".")[0]
        if name in ("numpy.core._internal", "numpy.core._methods"):
            # numpy's own C code, called on a real array
            return importlib.import_module(name)
        if self.sym and top in self.over:
            raise Unsupported(f"import {name}")
        if fromlist:
            return importlib.import_module(name)
        importlib.import_module(name)
        return sys.modules[top]
