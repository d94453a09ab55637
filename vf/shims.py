"""Stand-ins for builtins and third-party modules in the symbolic run."""
import builtins
import sys
import types

import numpy as np
import z3

from .terms import Unsupported, iv, num, zite, zand, znot, rv, toreal
from .engine import E, Sc, PathEnd, zcmp, DT, lift, cast, s_trunc, s_round, s_abs, is_scalar
from . import arr as A
from .arr import SymArr, FArr
from .struct import SymStruct, SymRow, rename_fields, append_fields, \
    drop_fields, merge_arrays
from . import symnp
from .symlist import SymList


def _scalar_of(x):
    if isinstance(x, Sc):
        return x
    if isinstance(x, (SymArr, FArr)):
        if isinstance(x, SymArr) and all(num(z) == 1 for z in x.zs):
            return x.get([iv(0)] * x.ndim)
        raise TypeError("only size-1 arrays can be converted")
    return None


def v_int(x=0, *a):
    s = _scalar_of(x)
    if s is None:
        return int(x, *a) if a else int(x)
    if s.k == 's':
        raise Unsupported("int() of symbolic text")
    if not z3.is_false(s.bad):
        if E().branch(s.bad):
            raise ValueError("cannot convert float NaN to integer")
    r = s_trunc(s)
    n = num(r.v)
    return int(n) if n is not None else r


v_int._vfkind = 'i'
v_int.__name__ = "int"


def v_float(x=0.0):
    s = _scalar_of(x)
    if s is None:
        return float(x)
    if s.k == 's':
        raise Unsupported("float() of symbolic text")
    return cast(s, 'f')


v_float._vfkind = 'f'
v_float.__name__ = "float"


def v_bool(x=False):
    return bool(x)


v_bool._vfkind = 'b'
v_bool.__name__ = "bool"


def v_str(x="", *a):
    return str(x, *a) if a else str(x)


v_str._vfkind = 's'
v_str.__name__ = "str"


class Rng:
    """range over a symbolic bound."""
    def __init__(self, lo, hi, st=1):
        self.lo, self.hi, self.st = lo, hi, st

    def __iter__(self):
        rule = E().range_rule
        if rule is None:
            raise Unsupported("loop over a symbolic range")
        return rule.iterate(self, sys._getframe(1))


def v_range(*a):
    if any(isinstance(x, Sc) for x in a):
        a = [x if not isinstance(x, Sc) or num(x.v) is None
             else int(num(x.v)) for x in a]
        if any(isinstance(x, Sc) for x in a):
            if len(a) == 1:
                return Rng(0, a[0])
            return Rng(*a)
    return range(*a)


def v_len(x):
    if isinstance(x, (SymArr, FArr, SymStruct)):
        return x.shape[0]
    if isinstance(x, SymList):
        return x.size_sc()
    return len(x)


def v_sorted(x, key=None, reverse=False):
    if isinstance(x, SymList):
        return x._vf_sorted(key, reverse)
    return sorted(x, key=key, reverse=reverse)


def v_any(x):
    if isinstance(x, (SymArr, FArr)):
        return A.a_any(x)
    return any(x)


def v_all(x):
    if isinstance(x, (SymArr, FArr)):
        return A.a_all(x)
    return all(x)


def v_sum(x, start=0):
    if isinstance(x, (SymArr, FArr)):
        return A.a_sum(x) + start
    return sum(x, start)


def v_round(x, *a):
    if isinstance(x, Sc):
        if a and a[0] is not None:
            raise Unsupported("round to digits")
        r = s_round(x)
        n = num(r.v)
        return int(n) if n is not None else r
    return round(x, *a)


_TM = {id(v_int): int, id(v_float): float, id(v_bool): bool, id(v_str): str}


def v_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        if isinstance(q, tuple):
            if v_isinstance(x, q):
                return True
            continue
        q = _TM.get(id(q), q)
        if isinstance(x, Sc):
            k = x.k
            if q in (int, np.integer, np.int64, np.int_):
                if k == 'i' or (k == 'b' and q is int):
                    return True
            elif q in (float, np.floating, np.float64):
                if k == 'f':
                    return True
            elif q in (bool, np.bool_):
                if k == 'b':
                    return True
            elif q in (str, np.str_):
                if k == 's':
                    return True
            elif q is np.generic or q is object:
                return True
            continue
        if isinstance(q, type) and isinstance(x, q):
            return True
    return False


def v_open(*a, **k):
    raise Unsupported("open()")


def builtin_overrides():
    return dict(int=v_int, float=v_float, bool=v_bool, str=v_str,
                range=v_range, len=v_len, any=v_any, all=v_all, sum=v_sum,
                round=v_round, sorted=v_sorted, isinstance=v_isinstance, open=v_open)


# ---------------------------------------------------------------- fake FITS
class Store:
    """In-memory files for the symbolic run: name -> [HDU]."""

    def __init__(self):
        self.files = {}

    def key(self, f):
        f = str(f)
        if "[" in f and f.endswith("]"):
            f = f[:f.index("[")]
        return f.lstrip("!")


class HDU:
    def __init__(self, name="", data=None, header=None):
        self.name, self.data = name, data
        self.header = header or {}
        self.reads = 0

    # table columns
    def get_colnames(self):
        return list(self.data.dtype.names)

    def get_extname(self):
        return self.name

    def has_data(self):
        return self.data is not None

    def get_nrows(self):
        return self.data.size

    @property
    def _dims(self):
        return self.data.shape

    def get_dims(self):
        return self.data.shape

    def _get_image_numpy_dtype(self):
        return DT(self.data.k)

    def get_info(self):
        return {"dims": list(self.data.shape)}

    def read(self, columns=None, rows=None, **kw):
        self.reads += 1
        d = self.data
        if isinstance(d, SymStruct):
            d = d.copy()
            if columns is not None:
                if isinstance(columns, str):
                    return self._rows(d[columns], rows)
                cols = [c for c in columns]
                up = {k.upper(): k for k in d.c}
                for c in cols:
                    if c.upper() not in up:
                        raise ValueError(f"column not found {c}")
                d = SymStruct(d.n, {
                    **{up[c.upper()]: d.c[up[c.upper()]] for c in cols},
                    **{k: v for k, v in d.c.items() if k.startswith("__")}})
            return self._rows(d, rows)
        if columns is not None:
            raise Unsupported("columns of an image")
        if rows is not None:
            raise Unsupported("rows of an image")
        return d.copy()

    def _rows(self, d, rows):
        return d if rows is None else d[rows]

    def read_header(self):
        return dict(self.header)

    def __getitem__(self, k):
        # image slices / table rows
        if isinstance(self.data, SymStruct):
            if isinstance(k, str):
                return _Col(self, k)
            if isinstance(k, tuple) and len(k) == 2 and \
                    isinstance(k[0], str):
                return self.data[k[0]][k[1]]
            if isinstance(k, tuple):
                raise Unsupported("table subscript")
            if isinstance(k, (list, tuple)):
                return _Col(self, list(k))
            return self.data.copy()[k]
        ks = k if isinstance(k, tuple) else (k,)
        sc = [i for i, x in enumerate(ks) if is_scalar(x)]
        r = self.data[k]
        if len(sc) == 1 and sc[0] == 0 and isinstance(r, SymArr):
            # fitsio keeps the axis of a scalar subscript
            return A.as_arr(r.copy())[None]
        if sc:
            raise Unsupported("image subscript")
        return r.copy() if isinstance(r, SymArr) else r


class _Col:
    def __init__(self, h, k):
        self.h, self.k = h, k

    def __getitem__(self, r):
        return self.h.data[self.k][r].copy()

    def read(self, **kw):
        return self.h.read(columns=self.k)


class FITS:
    def __init__(self, fname, mode='r', clobber=False, **kw):
        st = E().store
        self.fname = st.key(fname)
        self.mode = mode
        if mode == 'r':
            if self.fname not in st.files:
                raise OSError(f"FITSIO: file not found {fname}")
        elif clobber or self.fname not in st.files:
            st.files[self.fname] = []
        self.hdus = st.files[self.fname]
        E().__dict__.setdefault("opened", []).append((self.fname, mode))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def __iter__(self):
        return iter(list(self.hdus))

    def __len__(self):
        return len(self.hdus)

    def __contains__(self, k):
        return any(h.name == k for h in self.hdus)

    def __getitem__(self, k):
        if isinstance(k, str):
            for h in self.hdus:
                if h.name == k:
                    return h
            raise OSError(f"extension not found: {k}")
        if 0 <= k < len(self.hdus):
            return self.hdus[k]
        raise OSError("hdu number out of range")

    @property
    def hdu_names(self):
        return [h.name for h in self.hdus]

    def write(self, data, names=None, header=None, extname=None, **kw):
        if isinstance(data, list):
            if names is None or len(names) != len(data):
                raise ValueError("names must be a list of same length")
            data = dict(zip(names, [d.copy() if hasattr(d, "copy") else d
                                    for d in data]))
        elif isinstance(data, dict):
            data = {k: (d.copy() if hasattr(d, "copy") else d)
                    for k, d in data.items()}
        elif hasattr(data, "copy"):
            data = data.copy()
        hd = {}
        if header is not None:
            hd = dict(header)
        self.hdus.append(HDU(extname, data, hd))

    write_table = write
    write_image = write

    def read(self, ext=1, **kw):
        return self[ext].read(**kw)


def fits_read(fname, ext=None, columns=None, rows=None, header=False, **kw):
    f = FITS(fname)
    s = str(fname)
    if "[" in s and s.endswith("]"):
        e = s[s.index("[") + 1:-1]
        ext = int(e) if e.isdigit() else e
    if ext is None:
        for h in f.hdus:
            if h.has_data():
                break
    else:
        h = f[ext]
    d = h.read(columns=columns, rows=rows)
    return (d, h.read_header()) if header else d


def fits_read_header(fname, ext=0, **kw):
    return FITS(fname)[ext].read_header()


class FITSHDR(dict):
    pass


class ScKey(dict):
    pass


def fitsio_mod():
    m = types.ModuleType("fitsio")
    m.FITS, m.read, m.read_header = FITS, fits_read, fits_read_header
    m.FITSHDR = FITSHDR

    def write(fname, data, extname=None, header=None, clobber=False, **kw):
        with FITS(fname, 'rw', clobber=clobber) as f:
            f.write(data, header=header, extname=extname, **kw)
    m.write = write
    return m


class Opaque:
    """An unknown callable / library object: contracts supply its meaning."""

    def __init__(self, name):
        self._n = name

    def __call__(self, *a, **k):
        h = E().__dict__.get("lib_hooks", {}).get(self._n)
        if h is None:
            raise Unsupported(f"library call {self._n}")
        return h(*a, **k)


def _mod(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)

    def ga(a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Opaque(f"{name}.{a}")
    m.__getattr__ = ga
    return m


def modules():
    np_ = symnp.make()
    rf = _mod("numpy.lib.recfunctions", rename_fields=rename_fields,
              append_fields=append_fields, drop_fields=drop_fields,
              merge_arrays=merge_arrays)
    return {
        "numpy": np_, "numpy.lib.recfunctions": rf, "fitsio": fitsio_mod(),
        "scipy": _mod("scipy"), "scipy.ndimage": _mod("scipy.ndimage"),
        "scipy.optimize": _mod("scipy.optimize"),
        "scipy.interpolate": _mod("scipy.interpolate"),
        "scipy.special": _mod("scipy.special"),
        "scipy.stats": _mod("scipy.stats"),
        "healpy": _mod("healpy"), "iminuit": _mod("iminuit"),
        "astropy": _mod("astropy"),
        "astropy.io": _mod("astropy.io"),
        "astropy.io.ascii": _mod("astropy.io.ascii"),
        "time": _mod("time", time=lambda: 0.0),
        "os": _mod("os", makedirs=lambda *a, **k: None),
    }


class RangeRule:
    """Loop rule for `for i in range(symbolic)`: the contract supplies the
    invariant and the arrays the loop may write.

    inv(L, i) -> list of (label, n, f): for all k < n, f(k), given the local
    variables L, before the iteration with loop variable i (after the last
    iteration: i = the end of the range).  modifies(L) -> arrays."""

    def __init__(self, cx, inv, modifies):
        self.cx, self.inv, self.modifies = cx, inv, modifies

    def claim(self, L, i, when):
        for label, n, f in self.inv(L, i):
            self.cx.forall(f"{label} ({when})", n, f)

    def assume(self, L, i, targets):
        # what is assumed is about the arrays as they are now
        L = {k: v.copy() if isinstance(v, SymArr) and any(
            v.buf is t for t in targets) else v for k, v in L.items()}
        for label, n, f in self.inv(L, i):
            if not isinstance(n, Sc) and int(n) == 1:
                self.cx.assume(f(0))
            else:
                self.cx.assume_forall(n, f)

    def iterate(self, rng, frame):
        e = E()
        lo, hi, st = A.zi(rng.lo), A.zi(rng.hi), rng.st
        if st not in (1, -1):
            raise Unsupported("loop step")
        L = dict(frame.f_locals)
        targets = [t.buf for t in self.modifies(L)]
        self.claim(L, Sc('i', lo), "on entry")
        more = zcmp("<", lo, hi) if st == 1 else zcmp(">", lo, hi)
        if not e.branch(more):
            return
        for b in targets:
            self.havoc(b)
        step = e.branch(e.fbool("iter"))
        if not step:
            self.assume(L, Sc('i', hi), targets)
            return
        i = e.fint("it")
        e.fact(zand(i >= lo, i < hi) if st == 1 else zand(i <= lo, i > hi))
        self.assume(L, Sc('i', i), targets)
        self.cx.hint(Sc('i', i), Sc('i', z3.If(lo > hi, lo, hi)))
        if e.wlog is not None:
            raise Unsupported("nested symbolic loops")
        e.wlog = []
        birth = next(A._birth)
        it = Sc('i', i)
        try:
            yield it
        finally:
            log, e.wlog = e.wlog, None
        M = dict(frame.f_locals)
        for name, old in L.items():
            if M.get(name) is not old and M.get(name) is not it:
                raise Unsupported(f"loop rebinds {name}")
        for b in log:
            if b.birth < birth and not any(b is t for t in targets):
                raise Unsupported("loop writes an undeclared array")
        self.claim(M, Sc('i', i + st), "preserved")
        raise PathEnd()

    def havoc(self, b):
        e = E()
        if b.k not in "fi":
            raise Unsupported("loop writes an array of this type")
        f = e.ffun("havoc", *([z3.IntSort()] * len(b.shape)),
                   z3.RealSort() if b.k == 'f' else z3.IntSort())
        b.setfn(lambda idx: Sc(b.k, f(*idx)))
