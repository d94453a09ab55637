"""Dual-mode contract context: the same contract text runs symbolically (the
deciding step) and concretely (replay of counterexamples, cross-check)."""
import contextlib
import math
import os
import random
import shutil
import tempfile
import types
from fractions import Fraction

import numpy as np
import z3

from .terms import (
    Unsupported, TRUE, FALSE, R0, iv, rv, num, zand, zor, znot, zite, toreal,
    zadd, zsub, pzero, same)
from . import engine as G
from .engine import E, Sc, lift, zcmp, PathEnd, Ob, s_ite, cast, is_scalar
from . import arr as A
from .arr import SymArr, FArr
from .struct import SymStruct, SymRow
from .loader import Loader


class Discard(BaseException):
    """Concrete input does not satisfy the precondition."""


class CheckFailed(BaseException):
    def __init__(self, label, info):
        self.label, self.info = label, info
        super().__init__(f"{label}: {info}")


PASS = (Unsupported, PathEnd, Discard, CheckFailed, KeyboardInterrupt)


class Base:
    @property
    def thorough(self):
        return os.environ.get("VF_TIER") == "thorough"

    def call(self, fn, *a, **k):
        """(value, exception)"""
        try:
            return fn(*a, **k), None
        except PASS:
            raise
        except (Exception, SystemExit) as ex:
            return None, ex

    def check_raises(self, label, ex, types=Exception):
        self.check(label, ex is not None and isinstance(ex, types))

    def no_exc(self, label, ex):
        """Obligation: the call did not fail."""
        if ex is None:
            self.check(label, True)
        else:
            raise ex

    def load(self, name):
        return self.loader.load(name)

    def world(self, size, fn):
        """Run fn(comm, load) on `size` lock-stepped ranks, each with its own
        private copy of the modules."""
        from .world import World
        w = World(size)
        loaders = w.loaders = [self._newloader() for _ in range(size)]

        def body(comm):
            return fn(comm, loaders[comm.rank].load)
        res = w.run(body)
        for _, ex in res:
            if isinstance(ex, PASS):
                raise ex
        self.world_ops = w.nops
        return res


# ======================================================================= sym
def _spec(f):
    """Evaluate contract text without index-range branching.  The closure is
    frozen: contract loops may rebind its variables before it is used."""
    if getattr(f, "__closure__", None):
        try:
            f = types.FunctionType(
                f.__code__, f.__globals__, f.__name__, f.__defaults__,
                tuple(types.CellType(c.cell_contents)
                      for c in f.__closure__))
        except ValueError:
            pass

    def g(*a):
        e = E()
        e.spec += 1
        try:
            return f(*a)
        finally:
            e.spec -= 1
    return g


class SymCtx(Base):
    symbolic = True

    def __init__(self, eng, bounds=None):
        self.e = eng
        self.loader = self._newloader()
        from .shims import Store
        eng.store = Store()
        eng.lib_hooks = {}
        eng.np_hooks = {}
        self.names = set()
        self.rec = []            # (name, type, payload) for model extraction

    def _newloader(self):
        return Loader(True)

    def hook(self, name, sym=None, con=None):
        """Meaning of a library function in the symbolic run."""
        self.e.lib_hooks[name] = sym

    def nphook(self, name, sym):
        self.e.np_hooks[name] = sym

    # ------------------------------------------------------------- inputs
    def _nm(self, name):
        if name in self.names:
            raise RuntimeError(f"duplicate input {name}")
        self.names.add(name)
        return name

    def int(self, name, lo=None, hi=None, length=False, **kw):
        v = z3.Int(self._nm(name))
        self.rec.append((name, "int", v))
        if lo is not None:
            self.e.add_pc(v >= A.zi(lo))
        if hi is not None:
            self.e.add_pc(v <= A.zi(hi))
        if length:
            self.e.alen.append(v)
            self.e.reg(zsub(v, iv(1)), v)
        return Sc('i', v)

    def length(self, name, lo=0, hi=None, **kw):
        return self.int(name, lo, hi, length=True)

    def real(self, name, lo=None, hi=None, gt=None, lt=None, nan=False,
             **kw):
        v = z3.Real(self._nm(name))
        bad = None
        if nan:
            bad = z3.Bool(name + "?nan")
        self.rec.append((name, "real", (v, bad)))
        for b, op in ((lo, ">="), (hi, "<="), (gt, ">"), (lt, "<")):
            if b is not None:
                self.e.add_pc(zcmp(op, v, toreal(lift(b).v)))
        if gt is not None and num(lift(gt).v) is not None \
                and num(lift(gt).v) >= 0:
            self.e.positive.add(v.get_id())
            from .terms import _ATOMS
            _ATOMS[v.get_id()] = v
        return Sc('f', v, bad)

    def flag(self, name):
        r = self.e.choose(2)
        self.rec.append((self._nm(name), "choice", r))
        return r == 0

    def symbool(self, name):
        v = z3.Bool(self._nm(name))
        self.rec.append((name, "bool", v))
        return Sc('b', v)

    def choice(self, name, opts):
        opts = list(opts)
        r = self.e.choose(len(opts))
        self.rec.append((self._nm(name), "choice", r))
        return opts[r]

    def text(self, name, pool=None):
        """Symbolic string (compared only)."""
        v = z3.Int(self._nm(name))
        self.rec.append((name, "text", v))
        return Sc('s', v)

    def array(self, name, shape, kind='f', nan=False, lo=None, hi=None,
              gt=None, lt=None, **kw):
        if not isinstance(shape, tuple):
            shape = (shape,)
        zs = [A.zi(s) for s in shape]
        srt = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort(),
               's': z3.IntSort()}[kind]
        f = z3.Function(self._nm(name), *([z3.IntSort()] * len(zs)), srt)
        fb = z3.Function(name + "?nan", *([z3.IntSort()] * len(zs)),
                         z3.BoolSort()) if nan else None
        self.rec.append((name, "array", (kind, zs, f, fb)))
        e = self.e
        bnds = [(b, op) for b, op in (
            (lo, ">="), (hi, "<="), (gt, ">"), (lt, "<")) if b is not None]

        seen = set()

        def fn(idx):
            t = f(*idx)
            if bnds and t.get_id() not in seen and e.noreg == 0:
                seen.add(t.get_id())
                inr = zand(*[zand(zcmp(">=", i, iv(0)), zcmp("<", i, z))
                             for i, z in zip(idx, zs)])
                for b, op in bnds:
                    e.fact(z3.Implies(inr, zcmp(
                        op, t, toreal(lift(b).v) if kind == 'f'
                        else lift(b).v)))
            return Sc(kind, t, fb(*idx) if nan else None)
        a = A.new(kind, zs, fn, name)
        if bnds and len(zs) == 1:
            def uf(i):
                t = f(i)
                return z3.Implies(
                    zand(i >= 0, i < zs[0]), zand(*[zcmp(
                        op, t, toreal(lift(b).v) if kind == 'f'
                        else lift(b).v) for b, op in bnds]))
            e.ufact(uf, zs[0])
        return a

    def sorted_array(self, name, n, strict=True, gt=None, **kw):
        """Strictly increasing real array."""
        a = self.array(name, n, gt=gt)
        g = a.buf.fn
        zn = A.zi(n)
        op = "<" if strict else "<="
        trig = self.e.trigger(None, lambda i, j: z3.Implies(
            zand(i >= 0, i < j, j < zn), zcmp(op, g([i]).v, g([j]).v)))

        def fn(idx):
            trig(idx[0])
            return g(idx)
        return A.new('f', [zn], fn, name)

    def sorted_fact(self, a):
        """Assume the (non-strictly) increasing order of an input array."""
        g, n = a.buf.fn, a.zs[0]
        trig = self.e.trigger(None, lambda i, j: z3.Implies(
            zand(i >= 0, i < j, j < n), zcmp("<=", g([i]).v, g([j]).v)))

        def fn(idx):
            trig(idx[0])
            return g(idx)
        a.buf.setfn(fn)

    def step_hint(self, d):
        """linspace tries to prove that its step is d (else the quotient)."""
        self.e.__dict__.setdefault("step_hints", []).append(
            toreal(lift(d).v))

    def affine_grid(self, w0, dw, n, off=0):
        """w0 + (off + k) * dw, k < n."""
        w0, dw = lift(w0), lift(dw)
        o = A.zi(off)

        def fn(idx):
            k = A.simp_int(zadd(o, idx[0]))
            return Sc('f', zadd(w0.v, toreal(k) * dw.v))
        return A.new('f', [A.zi(n)], fn)

    def fun(self, name, lo=None, gt=None, hi=None, **kw):
        """Opaque elementwise function (deterministic)."""
        f = z3.Function(self._nm(name), z3.RealSort(), z3.RealSort())
        self.rec.append((name, "fun", f))
        e = self.e

        def one(s):
            s = cast(lift(s), 'f')
            v = f(s.v)
            if gt is not None:
                e.fact(v > rv(gt))
            if lo is not None:
                e.fact(v >= rv(lo))
            if hi is not None:
                e.fact(v <= rv(hi))
            return Sc('f', v, s.bad)

        def g(x, *a, **k):
            if is_scalar(x):
                return one(x)
            return A.unop(A.as_arr(x), one, 'f')
        g.scalar = one
        return g

    def row(self, **vals):
        return SymRow(vals)

    def source_row(self, table, k, src, keys):
        """Index in src of the row that table[k] came from (a witness the
        obligations are then stated about)."""
        return A.unlift(table["__row"].get([A.zi(k)])) if hasattr(
            table["__row"], "get") else table["__row"][k]

    def map3(self, name, kind='i'):
        """Opaque function of (const, x, y), elementwise."""
        R = z3.RealSort()
        f = z3.Function(self._nm(name), R, R, R,
                        z3.IntSort() if kind == 'i' else R)

        def one(c, x, y):
            c, x, y = [cast(lift(v), 'f') for v in (c, x, y)]
            return Sc(kind, f(c.v, x.v, y.v))

        def g(c, x, y, *a, **k):
            if is_scalar(x):
                return one(c, x, y)
            x, y = A.as_arr(x), A.as_arr(y)
            if isinstance(x, FArr):
                gx, gy = x.bgetter(), y.bgetter()
                return FArr(x.n, x.mask, lambda i: one(c, gx(i), gy(i)),
                            kind)
            gx, gy = x.snap(), y.snap()
            return A.new(kind, x.zs, lambda idx: one(c, gx(idx), gy(idx)))
        g.scalar = one
        return g

    def table(self, name, n, **cols):
        c = {}
        for k, o in cols.items():
            if isinstance(o, np.ndarray):
                o = A.as_arr(o)
            if isinstance(o, (SymArr, FArr)):
                c[k] = o
                continue
            if isinstance(o, str):
                o = dict(kind=o)
            c[k] = self.array(f"{name}.{k}", n, **o)
        g = SymStruct(n, c)
        g.c["__row"] = A.new('i', [A.zi(n)], lambda idx: Sc('i', idx[0]))
        return g

    # -------------------------------------------------------------- logic
    def z(self, c):
        if isinstance(c, (bool, np.bool_)):
            return z3.BoolVal(bool(c))
        if isinstance(c, Sc):
            return cast(c, 'b').v
        if z3.is_expr(c):
            return c
        if isinstance(c, SymArr) and c.ndim == 0:
            return cast(c.get([]), 'b').v
        raise Unsupported(f"condition {type(c)}")

    def And(self, *cs):
        return Sc('b', zand(*[self.z(c) for c in cs]))

    def Or(self, *cs):
        return Sc('b', zor(*[self.z(c) for c in cs]))

    def Not(self, c):
        return Sc('b', znot(self.z(c)))

    def Implies(self, a, b):
        return Sc('b', zor(znot(self.z(a)), self.z(b)))

    def Iff(self, a, b):
        return Sc('b', self.z(a) == self.z(b))

    def ite(self, c, a, b):
        return A.unlift(s_ite(self.z(c), lift(a), lift(b)))

    def eq(self, a, b, tol=None):
        """Same value (NaN equals NaN)."""
        if a is None or b is None:
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        a, b = lift(a), lift(b)
        if a.k == 's' or b.k == 's':
            return Sc('b', zcmp("==", a.v, b.v))
        if a.k == 'b' and b.k == 'b':
            return Sc('b', a.v == b.v)
        _, x, y = G.promote(a, b)
        v = TRUE if (x.sort() == z3.RealSort() and pzero(x, y)) else \
            zcmp("==", x, y)
        if z3.is_false(a.bad) and z3.is_false(b.bad):
            return Sc('b', v)
        return Sc('b', zand(a.bad == b.bad, zor(a.bad, v)))

    def isnan(self, x):
        return Sc('b', lift(x).bad)

    def assume(self, c):
        self.e.assume(self.z(c))

    def assume_forall(self, n, f):
        zn = A.zi(n)
        f = _spec(f)
        self.e.ufact(lambda i: z3.Implies(
            zand(i >= 0, i < zn), self.z(f(Sc('i', i)))), zn)

    def check(self, label, c):
        z = self.z(c)
        self.e.prove(label, z)

    def forall(self, label, n, f, shape=None):
        """Obligation: for all 0<=i<n, f(i).  n may be a tuple."""
        f = _spec(f)
        ns = n if isinstance(n, tuple) else (n,)
        idx = []
        for x in ns:
            zx = A.zi(x)
            if not self.e.branch(zcmp(">", zx, iv(0))):
                return
            c = num(zx)
            if c is not None and c == 1:
                idx.append(0)
                continue
            i = self.e.fint("all")
            self.e.fact(zand(i >= 0, i < zx))
            self.e.reg(i, zx)
            idx.append(Sc('i', i))
        self.check(label, f(*idx))

    def each(self, n, f):
        """Universally quantified: returns one arbitrary index or None."""
        zx = A.zi(n)
        if not self.e.branch(zcmp(">", zx, iv(0))):
            return []
        i = self.e.fint("all")
        self.e.fact(zand(i >= 0, i < zx))
        self.e.reg(i, zx)
        return [Sc('i', i)]

    def exists(self, n, p):
        p = _spec(p)
        return Sc('b', A.a_exists(A.zi(n), lambda i: self.z(p(Sc('i', i)))))

    def exists_pair(self, i, n, p):
        """exists j != i, j < n with p(i, j)."""
        zi_ = A.zi(i)
        p = _spec(p)
        return Sc('b', A.a_exists(A.zi(n), lambda j: zand(
            znot(zi_ == j), self.z(p(Sc('i', zi_), Sc('i', j))))))

    def anyidx(self, n):
        """One arbitrary index below n (n > 0 assumed)."""
        i = self.e.fint("any")
        self.e.fact(zand(i >= 0, i < A.zi(n)))
        self.e.reg(i, A.zi(n))
        return Sc('i', i)

    def sum(self, n, f):
        f = _spec(f)
        return Sc('f', self.e.mksum(
            A.zi(n), lambda i: toreal(lift(f(Sc('i', i))).v)))

    def count(self, n, p):
        p = _spec(p)
        return A.unlift(Sc('i', self.e.mkcount(
            A.zi(n), lambda i: self.z(p(Sc('i', i))))))

    def n(self, a):
        return a.shape[0]

    def symlist(self, n, elem):
        """List of n elements, elem(k) for an index k."""
        from .symlist import SymList
        return SymList(n, lambda k: elem(Sc('i', k)))

    def loop_inv(self, inv, modifies):
        """Invariant for the loops over symbolic ranges that follow."""
        from .shims import RangeRule
        self.e.range_rule = RangeRule(self, inv, modifies)

    def same(self, a, b):
        """Provably equal sizes."""
        return self.e.entail(zcmp("==", A.zi(a), A.zi(b)))

    def no_loop_inv(self):
        self.e.range_rule = None

    def loop_rule(self, rule):
        self.e.loop_rule = rule

    def fresh_int(self, name="g"):
        return Sc('i', self.e.fint(name))

    def hint(self, i, n):
        """Register an index term of range n for instantiation."""
        self.e.reg(A.zi(i), A.zi(n))

    def is_true(self, c):
        """Branch on a condition inside a contract."""
        return self.e.branch(self.z(c))

    def is_array(self, a):
        return isinstance(a, (SymArr, FArr))

    # -------------------------------------------------------------- files
    def put_file(self, fname, hdus):
        """hdus: list of (extname, data, header)."""
        from .shims import HDU
        self.e.store.files[fname] = [
            HDU(n, d, h) for n, d, h in hdus]

    def files(self):
        return dict(self.e.store.files)

    def tmp(self):
        return "/vf-tmp"

    def read_hdus(self, fname):
        """[(extname, {col: array} or data, header)]"""
        return [(h.name, h.data, h.header)
                for h in self.e.store.files.get(fname, [])]

    def np(self):
        return self.loader.over["numpy"]


def model_value(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(),
                              v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(),
                              a.denominator_as_long()))
    raise Unsupported(f"model value {v}")


def extract(m, rec):
    """Concrete inputs from a model: name -> value."""
    out = {}
    for name, typ, p in rec:
        if typ in ("int", "bool", "text"):
            out[name] = model_value(m, p)
        elif typ == "real":
            v, bad = p
            out[name] = float("nan") if bad is not None and model_value(
                m, bad) else model_value(m, v)
        elif typ == "choice":
            out[name] = p
        elif typ == "array":
            kind, zs, f, fb = p
            sh = tuple(max(0, model_value(m, z)) for z in zs)
            if int(np.prod(sh)) > 4000:
                raise Unsupported("model too large")
            a = np.zeros(sh, dtype={'f': float, 'i': np.int64, 'b': bool,
                                    's': np.int64}[kind])
            for ix in np.ndindex(*sh):
                t = [iv(i) for i in ix]
                x = model_value(m, f(*t))
                if fb is not None and model_value(m, fb(*t)):
                    x = float("nan")
                try:
                    a[ix] = x
                except OverflowError:
                    raise Unsupported("model too large")
            out[name] = a
        elif typ == "fun":
            fi = m[p]
            tab = []
            if fi is not None:
                if z3.is_func_decl(fi):
                    fi = None
                else:
                    for i in range(fi.num_entries()):
                        en = fi.entry(i)
                        tab.append((model_value(m, en.arg_value(0)),
                                    model_value(m, en.value())))
                    try:
                        els = model_value(m, fi.else_value())
                    except Exception:
                        els = 1.0
                    out[name] = (tab, els)
            if fi is None:
                out[name] = ([], 1.0)
    return out


# ======================================================================= con
class ConCtx(Base):
    symbolic = False

    def __init__(self, rnd, model=None, tmpdir=None):
        self.r = rnd
        self.model = model
        self.loader = self._newloader()
        self.inputs = {}
        self.nchecks = 0
        self._tmp = tmpdir
        self.hooks = {}
        self.labels = {}

    def _newloader(self):
        return Loader(False, dict(self.__dict__.get("_hm", {})))

    def hook(self, name, sym=None, con=None):
        """Replace library function in the concrete run as well (only where
        the contract must control its outcome)."""
        if con is None:
            return
        mod, _, attr = name.rpartition(".")
        import importlib
        import types
        real = importlib.import_module(mod)
        m = self.loader.over.get(mod)
        if m is None:
            m = types.ModuleType(mod)
            m.__dict__.update({k: v for k, v in real.__dict__.items()
                               if not k.startswith("__")})
            m.__getattr__ = lambda a: getattr(real, a)
            self.loader.over[mod] = m
        self.__dict__.setdefault("_hm", {})[mod] = m
        setattr(m, attr, con)

    def nphook(self, name, sym):
        pass

    def _get(self, name, gen):
        if self.model is not None and name in self.model:
            v = self.model[name]
        else:
            v = gen()
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, conc=None, length=False):
        l = 0 if lo is None else int(lo)
        h = (l + 9) if hi is None else int(hi)
        if conc is not None:
            l, h = max(l, conc[0]), min(conc[1], h) if hi is not None \
                else conc[1]
        h = min(h, max(l + 40, h if conc else l + 40))
        v = int(self._get(name, lambda: self.r.randint(l, h)))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Discard()
        return v

    def length(self, name, lo=0, hi=None, conc=None, **kw):
        if conc is None:
            conc = (lo, lo + 9)
        return self.int(name, lo, hi, conc)

    def _num(self, lo, hi, gt, lt, pool):
        r = self.r
        if pool is not None and r.random() < 0.8:
            return r.choice(pool)
        a = lo if lo is not None else gt if gt is not None else -4.0
        b = hi if hi is not None else lt if lt is not None else a + 8.0
        if lo is None and gt is None and (hi is not None or lt is not None):
            a = b - 8.0
        a, b = float(a), float(b)
        span = b - a
        for _ in range(50):
            q = 2 ** r.choice([2, 3, 6, 10])
            v = a + span * r.randint(0, q) / q
            if gt is not None and not v > gt or lt is not None and not v < lt:
                continue
            return v
        raise Discard()

    def real(self, name, lo=None, hi=None, gt=None, lt=None, nan=False,
             pool=None, **kw):
        def g():
            if nan and self.r.random() < 0.1:
                return float("nan")
            return self._num(lo, hi, gt, lt, pool)
        v = float(self._get(name, g))
        for b, ok in ((lo, lambda b: v >= b), (hi, lambda b: v <= b),
                      (gt, lambda b: v > b), (lt, lambda b: v < b)):
            if b is not None and not ok(b) and not math.isnan(v):
                raise Discard()
        return v

    def flag(self, name):
        return self._get(name, lambda: self.r.randint(0, 1)) == 0

    def symbool(self, name):
        return bool(self._get(name, lambda: self.r.randint(0, 1)))

    def choice(self, name, opts):
        opts = list(opts)
        return opts[self._get(name, lambda: self.r.randrange(len(opts)))]

    def text(self, name, pool=("aa", "bb", "cc", "dd")):
        v = self._get(name, lambda: self.r.randrange(len(pool)))
        if v >= 1000:
            return G._INTERN_REV.get(v, f"t{v}")
        if 0 <= v < len(pool):
            return pool[v]
        return f"t{v}"

    def array(self, name, shape, kind='f', nan=False, lo=None, hi=None,
              gt=None, lt=None, pool=None, zeros=0.0, **kw):
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        r = self.r

        def one():
            if kind == 'b':
                return r.random() < 0.5
            if zeros and r.random() < zeros:
                return 0
            if nan and r.random() < 0.12:
                return float("nan")
            if kind == 's':
                return r.choice(pool or ("aa", "bb", "cc"))
            if kind == 'i':
                if pool is not None:
                    return r.choice(pool)
                a = 0 if lo is None else int(lo)
                b = a + 7 if hi is None else int(hi)
                return r.randint(a, b)
            return self._num(lo, hi, gt, lt, pool)

        def gen():
            dt = {'f': float, 'i': np.int64, 'b': bool, 's': 'U8'}[kind]
            a = np.zeros(shape, dtype=dt)
            for ix in np.ndindex(*shape):
                a[ix] = one()
            return a
        a = self._get(name, gen)
        if a.shape != shape:
            raise Discard()
        if kind == 's' and a.dtype.kind != 'U':
            u = sorted(set(a.ravel().tolist()))
            nm = {v: (G._INTERN_REV[v] if v in G._INTERN_REV
                      else f"s{j:03d}") for j, v in enumerate(u)}
            a = np.array([nm[v] for v in a.ravel()], dtype='U8').reshape(
                shape)
            self.inputs[name] = a
        if kind == 'f':
            with np.errstate(invalid='ignore'):
                for b, ok in ((lo, lambda b: a >= b), (hi, lambda b: a <= b),
                              (gt, lambda b: a > b), (lt, lambda b: a < b)):
                    if b is not None and not np.all(ok(b) | np.isnan(a)):
                        raise Discard()
        return a.copy()

    def sorted_array(self, name, n, strict=True, gt=None, start=None,
                     step=None, **kw):
        def gen():
            v = [start if start is not None else
                 (gt if gt is not None else 0) + self.r.randint(1, 16) / 4]
            for _ in range(int(n) - 1):
                v.append(v[-1] + (step or self.r.choice(
                    [0.25, 0.5, 1.0, 1.0, 2.0])))
            return np.array(v[:int(n)], dtype=float)
        a = self._get(name, gen)
        if a.size != n or (a.size > 1 and not np.all(np.diff(a) > 0)):
            raise Discard()
        if gt is not None and not np.all(a > gt):
            raise Discard()
        return a.copy()

    def affine_grid(self, w0, dw, n, off=0):
        return w0 + (off + np.arange(int(n))) * dw

    def fun(self, name, lo=None, gt=None, hi=None, **kw):
        base = lo if lo is not None else gt if gt is not None else None

        def gen():
            return [self.r.randint(-8, 8) / 8 for _ in range(3)]
        c = self._get(name, gen)

        if isinstance(c, tuple):
            tab, els = c

            def one(x):
                for k, v in tab:
                    if abs(k - x) <= 1e-12 * max(1, abs(k)):
                        return v
                return els
        else:
            def one(x):
                v = c[0] + c[1] * math.sin(x) + c[2] * math.cos(3 * x)
                if base is not None:
                    v = base + v * v + (0.125 if gt is not None else 0)
                if hi is not None:
                    v = min(v, hi)
                return v

        def g(x, *a, **k):
            if np.ndim(x) == 0:
                return one(float(x))
            return np.array([one(float(v)) for v in np.ravel(x)],
                            dtype=float).reshape(np.shape(x))
        g.scalar = one
        return g

    def source_row(self, table, k, src, keys):
        for r in range(len(src)):
            if all(src[q][r] == table[q][k] for q in keys):
                return r
        raise CheckFailed("every row comes from the file",
                          f"row {k} has no source")

    def row(self, **vals):
        dt = []
        for k, v in vals.items():
            a = np.asarray(v)
            dt.append((k, a.dtype, a.shape))
        rec = np.zeros(1, dtype=dt)
        for k, v in vals.items():
            rec[k][0] = v
        return rec[0]

    def table(self, name, n, **cols):
        arrs = {}
        for k, o in cols.items():
            if isinstance(o, np.ndarray):
                arrs[k] = o
                continue
            if isinstance(o, str):
                o = dict(kind=o)
            arrs[k] = self.array(f"{name}.{k}", n, **o)
        t = np.zeros(int(n), dtype=[
            (k, a.dtype, a.shape[1:]) for k, a in arrs.items()])
        for k, a in arrs.items():
            t[k] = a
        return t

    # -------------------------------------------------------------- logic
    def z(self, c):
        return bool(c)

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b, tol=1e-7):
        if a is None or b is None:
            return a is b
        if isinstance(a, (str, np.str_)) or isinstance(b, (str, np.str_)):
            return str(a) == str(b)
        if isinstance(a, (bool, np.bool_)) or isinstance(
                a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            return bool(a == b)
        a, b = float(a), float(b)
        # a non-finite value stands for "no number": inf and nan alike
        if not math.isfinite(a) or not math.isfinite(b):
            return not math.isfinite(a) and not math.isfinite(b)
        return abs(a - b) <= (tol or 1e-7) * max(1.0, abs(a), abs(b))

    def isnan(self, x):
        return not math.isfinite(float(x))

    def assume(self, c):
        if not bool(c):
            raise Discard()

    def assume_forall(self, n, f):
        for i in range(int(n)):
            if not bool(f(i)):
                raise Discard()

    def check(self, label, c):
        self.nchecks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(c):
            raise CheckFailed(label, "condition is false")

    def forall(self, label, n, f, shape=None):
        ns = n if isinstance(n, tuple) else (n,)
        for ix in np.ndindex(*[int(x) for x in ns]):
            if not bool(f(*ix)):
                raise CheckFailed(label, f"fails at index {ix}")
        self.nchecks += 1
        self.labels[label] = self.labels.get(label, 0) + 1

    def each(self, n, f=None):
        return list(range(int(n)))

    def anyidx(self, n):
        self._any = getattr(self, "_any", 0) + 1
        return self.int(f"any{self._any}", 0, 10**6,
                        conc=(0, int(n) - 1))

    def exists(self, n, p):
        return any(bool(p(i)) for i in range(int(n)))

    def exists_pair(self, i, n, p):
        return any(j != i and bool(p(i, j)) for j in range(int(n)))

    def sum(self, n, f):
        return math.fsum(float(f(i)) for i in range(int(n)))

    def count(self, n, p):
        return sum(1 for i in range(int(n)) if bool(p(i)))

    def n(self, a):
        return len(a)

    def hint(self, i, n):
        pass

    def step_hint(self, d):
        pass

    def is_true(self, c):
        return bool(c)

    def is_array(self, a):
        return isinstance(a, np.ndarray)

    def np(self):
        return np

    # -------------------------------------------------------------- files
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vf-")
        return self._tmp

    def cleanup(self):
        if self._tmp and self._tmp.startswith(tempfile.gettempdir()):
            shutil.rmtree(self._tmp, ignore_errors=True)
        self._tmp = None

    def put_file(self, fname, hdus):
        import fitsio
        os.makedirs(os.path.dirname(fname), exist_ok=True)
        if os.path.exists(fname):
            os.remove(fname)
        with fitsio.FITS(fname, 'rw', clobber=True) as f:
            for n, d, h in hdus:
                f.write(d, extname=n, header=dict(h) if h else None)

    def files(self):
        out = {}
        for d, _, fs in os.walk(self.tmp()):
            for f in fs:
                out[os.path.join(d, f)] = None
        return out

    def read_hdus(self, fname):
        import fitsio
        out = []
        if not os.path.exists(fname) or b"XTENSION" not in open(
                fname, "rb").read():
            return out      # a file without any table
        with fitsio.FITS(fname) as f:
            for h in f:
                try:
                    if not h.has_data():
                        continue
                except Exception:
                    pass
                d = h.read()
                hd = h.read_header()
                data = {k: d[k] for k in d.dtype.names} \
                    if d is not None and d.dtype.names else d
                out.append((h.get_extname(), data,
                            {k: hd[k] for k in hd.keys()}))
        return out
