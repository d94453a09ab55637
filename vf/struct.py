"""Structured arrays (tables) and their rows."""
import numpy as np
import z3

from .terms import Unsupported, iv, num, zand
from .engine import E, Sc, DT, lift, is_scalar, zcmp
from . import arr as A


class _DT:
    def __init__(self, cols):
        self.names = tuple(k for k in cols if not k.startswith("__"))
        self._c = cols
        self.fields = {k: (DT(cols[k].k), 0) for k in self.names}
        self.kind = 'V'
        self.descr = [(k, cols[k].k) for k in self.names]

    def __getitem__(self, k):
        return DT(self._c[k].k)

    def __eq__(self, o):
        return getattr(o, "names", None) == self.names

    def __hash__(self):
        return hash(self.names)


class SymRow:
    """One record."""
    __array_ufunc__ = None

    def __init__(self, vals):
        self.v = dict(vals)

    @property
    def dtype(self):
        return _DT({k: (v if isinstance(v, (A.SymArr, A.FArr))
                        else lift(v)) for k, v in self.v.items()})

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.v:
                raise ValueError(f"no field of name {k}")
            return self.v[k]
        if isinstance(k, (list, tuple)):
            return SymRow({x: self.v[x] for x in k})
        return list(self)[k]

    def __iter__(self):
        return iter([v for k, v in self.v.items()
                     if not k.startswith("__")])

    def __len__(self):
        return len(list(iter(self)))

    def __setitem__(self, k, x):
        self.v[k] = x

    def copy(self):
        return SymRow(self.v)

    def __deepcopy__(self, memo):
        return self


class SymStruct:
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, n, cols):
        self.n = A.zi(n)
        self.c = dict(cols)

    @property
    def dtype(self):
        return _DT(self.c)

    @property
    def size(self):
        return A.pyint(self.n)

    @property
    def shape(self):
        return (self.size,)

    def __len__(self):
        c = num(self.n)
        if c is None:
            raise Unsupported("len() of a symbolic table")
        return int(c)

    def __hash__(self):
        return id(self)

    def __iter__(self):
        n = self.size
        if not isinstance(n, int):
            n = n.__index__()   # one path for each size
        return iter([self[i] for i in range(n)])

    def copy(self, *a):
        return SymStruct(self.n, {k: v.copy() for k, v in self.c.items()})

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.c:
                raise ValueError(f"no field of name {k}")
            return self.c[k]
        if isinstance(k, (list, tuple)) and k and all(
                isinstance(x, str) for x in k):
            return SymStruct(self.n, {x: self.c[x] for x in list(k) + [
                g for g in self.c if g.startswith("__")]})
        if is_scalar(k):
            return SymRow({x: v[k] for x, v in self.c.items()})
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        cols = {x: v[k] for x, v in self.c.items()}
        first = next(iter(cols.values()))
        return SymStruct(first.zs[0], cols)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.c[k][:] = v
            return
        raise Unsupported("row assignment in a table")

    def argsort(self, order=None, kind=None, axis=-1, **kw):
        from . import sets
        if order is None:
            order = list(self.dtype.names)
        if isinstance(order, str):
            order = [order]
        cols = [self._d(o) for o in order]
        return sets.argsort(None, keys=cols)

    def _d(self, o):
        if o not in self.c:
            raise ValueError(f"unknown field name: {o}")
        c = self.c[o]
        return c.dense() if isinstance(c, A.FArr) else c

    def sort(self, axis=-1, kind=None, order=None):
        p = self.argsort(order=order)
        for k in list(self.c):
            self.c[k] = A.gather(self._d(k), p)

    def _vf_sorted(self, order):
        return self[self.argsort(order=order)]

    @staticmethod
    def from_rows(rows):
        names = list(rows[0].v)
        return SymStruct(len(rows), {
            k: A.stack_list([r.v[k] for r in rows]) for k in names})

    @staticmethod
    def concat(lst):
        from . import symnp
        names = list(lst[0].c)
        for s in lst[1:]:
            if list(s.c) != names:
                raise TypeError("invalid type promotion")
        n = iv(0)
        for s in lst:
            n = A.simp_int(A.zadd(n, s.n))
        return SymStruct(n, {k: symnp.concatenate([s.c[k] for s in lst])
                             for k in names})


def rename_fields(t, mapper):
    if not isinstance(t, SymStruct):
        from numpy.lib.recfunctions import rename_fields as rf
        return rf(t, mapper)
    return SymStruct(t.n, {mapper.get(k, k): v for k, v in t.c.items()})


def append_fields(t, names, data=None, dtypes=None, usemask=True, **kw):
    if not isinstance(t, SymStruct):
        from numpy.lib.recfunctions import append_fields as af
        return af(t, names, data, dtypes=dtypes, usemask=usemask, **kw)
    if isinstance(names, str):
        names, data = [names], [data]
    cols = {k: v.copy() for k, v in t.c.items()}
    for n, d in zip(names, data):
        d = A.as_arr(d)
        cols[n] = d
    return SymStruct(t.n, cols)


def drop_fields(t, names, usemask=True, **kw):
    if isinstance(names, str):
        names = [names]
    if not isinstance(t, SymStruct):
        from numpy.lib.recfunctions import drop_fields as df
        return df(t, names, usemask=usemask, **kw)
    cols = {k: v.copy() for k, v in t.c.items() if k not in names}
    if not [k for k in cols if not k.startswith("__")]:
        return None
    return SymStruct(t.n, cols)


def merge_arrays(seq, fill_value=-1, flatten=False, usemask=False, **kw):
    if not any(isinstance(s, SymStruct) for s in seq):
        from numpy.lib.recfunctions import merge_arrays as ma
        return ma(seq, flatten=flatten, usemask=usemask, **kw)
    if not flatten:
        raise Unsupported("merge_arrays without flatten")
    cols = {}
    n = seq[0].n
    for s in seq:
        if not isinstance(s, SymStruct):
            raise Unsupported("merge_arrays")
        if not E().entail(zcmp("==", s.n, n)):
            raise Unsupported("merge_arrays of different lengths")
        for k, v in s.c.items():
            if k in cols and not k.startswith("__"):
                raise ValueError(f"field '{k}' occurs more than once")
            cols[k] = v
    return SymStruct(n, cols)
