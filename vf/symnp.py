"""numpy shim: the numpy names the repository uses, on symbolic arrays.

Anything not listed falls through to real numpy when every argument is
concrete, and is Unsupported otherwise."""
import builtins
import types

import numpy as np
import z3

from .terms import (
    Unsupported, TRUE, FALSE, R0, R1, rv, iv, num, same, zand, zor, znot,
    zite, toreal, zadd, zsub, zmul, pzero)
from . import engine as G
from .engine import E, Sc, DT, lift, arith_s, s_ite, zcmp, kind_of_dtype, \
    is_scalar, s_fun, s_abs, s_round, cast
from . import arr as A
from .arr import SymArr, FArr, as_arr, new, zi, unlift, pyint
from . import sets
from .struct import SymStruct, SymRow

SYM = (Sc, SymArr, FArr, SymStruct, SymRow)


def has_sym(x, d=0):
    if isinstance(x, SYM):
        return True
    if d < 4:
        if isinstance(x, (list, tuple)):
            return builtins.any(has_sym(y, d + 1) for y in x)
        if isinstance(x, dict):
            return builtins.any(has_sym(y, d + 1) for y in x.values())
    return False


def isreal(x):
    return isinstance(x, (np.ndarray, np.generic)) and (
        x.dtype.kind in 'USOV')


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(zi(x) for x in s)
    return (zi(s),)


def _neg(shape):
    for s in shape:
        n = num(s)
        if n is not None:
            if n < 0:
                raise ValueError("negative dimensions are not allowed")
        elif not E().entail(s >= 0):
            if not E().branch(s >= 0):
                raise ValueError("negative dimensions are not allowed")
    return shape


def _dtkind(dtype, default='f'):
    if dtype is None:
        return default
    if isinstance(dtype, DT):
        return dtype.k
    try:
        d = np.dtype(dtype)
        if d.names is not None or d.kind in 'USO':
            return None
    except TypeError:
        pass
    return kind_of_dtype(dtype)


def full(shape, v, dtype=None):
    s = lift(v)
    k = _dtkind(dtype, s.k)
    s = cast(s, k)
    return new(k, _neg(_shape(shape)), lambda idx: s)


def _structured(shape, dtype, fn):
    from .struct import SymStruct
    d = np.dtype(dtype)
    sh = _neg(_shape(shape))
    if d.names is None or len(sh) != 1 or [
            k for k in d.names if d[k].base.kind in 'USO']:
        if has_sym(shape):
            raise Unsupported("structured array of symbolic size")
        return (np.zeros if fn is zeros else np.empty)(shape, dtype=dtype)
    return SymStruct(sh[0], {
        k: fn((A.pyint(sh[0]),) + d[k].shape, dtype=d[k].base)
        for k in d.names})


def zeros(shape, dtype=None, **kw):
    k = _dtkind(dtype)
    if k is None:
        return _structured(shape, dtype, zeros)
    s = A.zero_of(k)
    return new(k, _neg(_shape(shape)), lambda idx: s)


def ones(shape, dtype=None, **kw):
    return full(shape, 1.0 if dtype is None else 1, dtype)


def empty(shape, dtype=None, **kw):
    k = _dtkind(dtype)
    if k is None:
        return _structured(shape, dtype, empty)
    sh = _neg(_shape(shape))
    if k == 's':
        raise Unsupported("string array")
    srt = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[k]
    f = E().ffun("garbage", *([z3.IntSort()] * len(sh)), srt) if sh else None
    fb = E().ffun("garbnan", *([z3.IntSort()] * len(sh)), z3.BoolSort())
    return new(k, sh, lambda idx: Sc(
        k, f(*idx), fb(*idx) if k == 'f' else None), "empty")


def _like(fn):
    def g(a, dtype=None, **kw):
        if isinstance(a, np.ndarray):
            a = as_arr(a)
        if isinstance(a, FArr):
            s = lift({'zeros': 0, 'ones': 1}.get(fn.__name__, 0))
            if fn.__name__ == 'empty':
                f = E().ffun("garbage", z3.IntSort(), z3.RealSort())
                return FArr(a.n, a.mask, lambda i: Sc('f', f(i)), a.k)
            return FArr(a.n, a.mask, lambda i: cast(s, a.k), a.k)
        a = as_arr(a)
        return fn(a.shape, dtype=DT(a.k) if dtype is None else dtype)
    return g


zeros_like, ones_like, empty_like = _like(zeros), _like(ones), _like(empty)


def full_like(a, v, dtype=None):
    a = as_arr(a)
    return full(a.shape, v, DT(a.k) if dtype is None else dtype)


class ObjArr(np.ndarray):
    """Array of Python objects (e.g. spectra): a real object array that
    accepts symbolic positions (decided by case split)."""

    def __getitem__(self, k):
        if isinstance(k, (SymArr, FArr)):
            if isinstance(k, FArr):
                k = k.dense()
            k = [k[i] for i in range(len(k))]
            if k and lift(k[0]).k == 'b':
                k = np.array([bool(x) for x in k])
            else:
                k = np.array([_decide(x, self.shape[0]) for x in k], int)
        elif isinstance(k, Sc):
            k = _decide(k, self.shape[0])
        elif isinstance(k, slice):
            k = slice(*[None if x is None else _decide(x, self.shape[0] + 1)
                        for x in (k.start, k.stop, k.step)])
        return np.ndarray.__getitem__(self, k)


def _decide(x, n):
    if not isinstance(x, Sc):
        return int(x)
    v = num(x.v)
    if v is not None:
        return int(v)
    for j in range(n):
        if E().branch(zcmp("==", x.v, iv(j))):
            return j
    raise Unsupported("position outside an object array")


def _objs(x):
    return isinstance(x, (list, tuple)) and len(x) > 0 and builtins.all(
        type(v).__module__.startswith("qsonic") and not
        hasattr(v, "_vf_array") for v in x)


def array(x, dtype=None, copy=True, **kw):
    if _objs(x):
        r = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            r[i] = v
        return r.view(ObjArr)
    if isinstance(x, (SymStruct, SymRow)):
        return x.copy()
    if isinstance(x, np.ndarray) and (x.dtype.kind in 'USOV'):
        return np.array(x, dtype=dtype) if dtype is not None else x.copy()
    if isinstance(x, (list, tuple)) and not has_sym(x):
        dt = dtype if not isinstance(dtype, DT) else None
        dt = {'i': np.int64, 'f': float, 'b': bool, 's': str}.get(
            getattr(dt, "_vfkind", None), dt)
        r = np.array(x, dtype=dt)
        if r.dtype.kind in 'USOV':
            return r
        return A.lit_array(r)
    if isinstance(x, (list, tuple)) and builtins.any(
            isinstance(v, SymRow) for v in x):
        return SymStruct.from_rows(list(x))
    if isinstance(x, (set, types.GeneratorType)):
        raise Unsupported("array from set/generator")
    r = as_arr(x)
    if isinstance(r, FArr):
        return r if dtype is None else r.astype(dtype)
    if dtype is not None:
        return r.astype(dtype)
    return r.copy()


def asarray(x, dtype=None, **kw):
    if isinstance(x, (SymArr, FArr)) and dtype is None:
        return x
    return array(x, dtype)


atleast_1d_ = None


def atleast_1d(x):
    if isinstance(x, (SymArr, FArr)) and x.ndim >= 1:
        return x
    if isinstance(x, np.ndarray):
        return np.atleast_1d(x)
    s = lift(x if is_scalar(x) else x.item())
    return A.stack_list([s])


def arange(*a, dtype=None, **kw):
    if not has_sym(a):
        return A.lit_array(np.arange(*a))
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        (lo, hi), st = a, 1
    else:
        lo, hi, st = a
    lo, hi, st = lift(lo), lift(hi), lift(st)
    if 'f' in (lo.k, hi.k, st.k):
        raise Unsupported("float arange")
    if num(st.v) != 1:
        raise Unsupported("arange step")
    n = zsub(hi.v, lo.v)
    n = zite(n >= 0, n, iv(0)) if not E().entail(n >= 0) else n
    k = kind_of_dtype(dtype) if dtype else 'i'
    return new(k, [n], lambda idx: cast(Sc('i', zadd(lo.v, idx[0])), k))


def linspace(a, b, n=50, endpoint=True, retstep=False, num_=None, **kw):
    n = kw.pop("num", n)
    if not has_sym((a, b, n)):
        r = np.linspace(a, b, n, endpoint=endpoint, retstep=retstep)
        if retstep:
            return A.lit_array(r[0]), float(r[1])
        return A.lit_array(r)
    a, b = lift(a), lift(b)
    nz = zi(n)
    _neg((nz,))
    div = zsub(nz, iv(1)) if endpoint else nz
    av, bv = toreal(a.v), toreal(b.v)
    diff = arith_s("-", Sc('f', bv), Sc('f', av))
    st = None
    # lemma: the interval is div * d for one of the contract's hints d
    for d in getattr(E(), "step_hints", ()):
        if E().entail(z3.And(toreal(div) > 0,
                             diff.v == zmul(toreal(div), d))):
            st = d
            step = Sc('f', d)
            break
    if st is None:
        step = arith_s("/", diff, Sc('f', toreal(div)))
        st = step.v
    bad = zor(a.bad, b.bad)

    def fn(idx):
        i = idx[0]
        v = zadd(av, zmul(toreal(i), st))
        try:
            v = A.unpoly(A.poly(v))
        except Unsupported:
            pass
        if num(nz) is None or num(nz) == 1:
            v = zite(zcmp("==", i, iv(0)), av, v)
        return Sc('f', v, bad)
    arr = new('f', [nz], fn)
    if retstep:
        return arr, step
    return arr


def logspace(a, b, n, **kw):
    a, b, n = [x if not isinstance(x, Sc) or num(x.v) is None
               else num(x.v) for x in (a, b, n)]
    a, b = [float(x) if not isinstance(x, Sc) else x for x in (a, b)]
    n = int(n) if not isinstance(n, Sc) else n
    if has_sym((a, b, n)):
        raise Unsupported("symbolic logspace")
    return A.lit_array(np.logspace(a, b, n, **kw))


def eye(n, **kw):
    n = zi(n)
    return new('f', [n, n], lambda idx: s_ite(
        zcmp("==", idx[0], idx[1]), lift(1.0), lift(0.0)))


identity = eye


def diag(a, **kw):
    a = as_arr(a)
    g = a.snap()
    if a.ndim == 1:
        return new(a.k, [a.zs[0]] * 2, lambda idx: s_ite(
            zcmp("==", idx[0], idx[1]), g([idx[0]]), A.zero_of(a.k)))
    return new(a.k, [a.zs[0]], lambda idx: g([idx[0], idx[0]]))


def _un(name):
    def f(x, *a, out=None, where=None, **kw):
        if is_scalar(x):
            return s_fun(name, x)
        return A.unop(as_arr(x), lambda s: s_fun(name, s), 'f')
    return f


sqrt, exp, log, log10, cos, sin, tan, log2, log1p, expm1 = [
    _un(n) for n in ("sqrt", "exp", "log", "log10", "cos", "sin", "tan",
                     "log2", "log1p", "expm1")]


def _ew(fn, kind=None):
    def f(x, *a, **kw):
        if is_scalar(x):
            return unlift(fn(lift(x)))
        x = as_arr(x)
        return A.unop(x, fn, kind or x.k)
    return f


def abs(x):
    return _ew(s_abs)(x)


absolute = fabs = abs
isnan = _ew(lambda s: Sc('b', s.bad), 'b')
isfinite = _ew(lambda s: Sc('b', znot(s.bad)), 'b')
isinf = _ew(lambda s: Sc('b', FALSE), 'b')
square = _ew(lambda s: s * s)
negative = _ew(lambda s: -s)
logical_not = _ew(lambda s: ~cast(s, 'b'), 'b')
invert = _ew(lambda s: ~s)
PI180 = np.pi / 180
radians = deg2rad = _ew(
    lambda s: s * lift(PI180) if s.k == 'f' else cast(s, 'f') * PI180, 'f')
degrees = rad2deg = _ew(lambda s: cast(s, 'f') * (180 / np.pi), 'f')
sign = _ew(lambda s: s_ite(zcmp("<", s.v, G.num0(s.v)), lift(-1.0), s_ite(
    zcmp("==", s.v, G.num0(s.v)), lift(0.0), lift(1.0))))


def floor(x):
    return _ew(lambda s: Sc('f', toreal(z3.ToInt(toreal(s.v))), s.bad), 'f')(x)


def ceil(x):
    return _ew(lambda s: Sc('f', -toreal(z3.ToInt(-toreal(s.v))), s.bad),
               'f')(x)


def round(x, *a, **kw):
    if a or kw:
        raise Unsupported("round with decimals")
    return _ew(lambda s: cast(s_round(s), 'f') if s.k == 'f' else s)(x)


rint = around = round


def _bin(op):
    def f(a, b, out=None, where=None, **kw):
        if out is None and where is None:
            if is_scalar(a) and is_scalar(b):
                return unlift(arith_s(op, lift(a), lift(b)))
            if is_scalar(a):
                return A.binop(op, a, as_arr(b))
            return A.binop(op, as_arr(a), b)
        if is_scalar(a):
            res = A.binop(op, a, as_arr(b))
        else:
            res = A.binop(op, as_arr(a), b)
        if out is None:
            out = empty(as_arr(res).shape)
        g = A.bget(res, out.zs)
        if where is None or where is True:
            out.write(g)
        else:
            m = A.bget(where, out.zs)
            out.write(g, lambda idx: m(idx).v)
        return out
    return f


add, subtract, multiply, divide, power = map(_bin, ("+", "-", "*", "/", "**"))
true_divide = divide
floor_divide, mod, remainder = _bin("//"), _bin("%"), _bin("%")
equal, not_equal, less, less_equal, greater, greater_equal = map(
    _bin, ("==", "!=", "<", "<=", ">", ">="))
bitwise_and, bitwise_or = _bin("&"), _bin("|")


def _lbin(op):
    def f(a, b):
        ab = astype_b(a)
        bb = astype_b(b)
        if is_scalar(ab) and is_scalar(bb):
            return arith_s(op, lift(ab), lift(bb))
        return A.binop(op, ab, bb)
    return f


def astype_b(x):
    if is_scalar(x):
        return cast(lift(x), 'b')
    x = as_arr(x)
    return x if x.k == 'b' else x.astype(bool)


logical_and, logical_or = _lbin("&"), _lbin("|")


def _mm(mx, nanprop=True):
    def two(x, y):
        k, a, b = G.promote(x, y)
        c = zcmp("<", a, b)
        v = zite(c, b, a) if mx else zite(c, a, b)
        if nanprop:
            return Sc(k, v, zor(x.bad, y.bad))
        return Sc(k, zite(x.bad, b, zite(y.bad, a, v)), zand(x.bad, y.bad))

    def f(a, b, out=None, **kw):
        if out is not None:
            raise Unsupported("out=")
        if is_scalar(a) and is_scalar(b):
            return unlift(two(lift(a), lift(b)))
        return _zip2(two, a, b)
    return f


def _zip2(fn, a, b):
    if isinstance(a, FArr) or isinstance(b, FArr):
        f = a if isinstance(a, FArr) else b
        gs = []
        for x in (a, b):
            if isinstance(x, FArr):
                if x is not f and not f.same_mask(x.n, x.mask):
                    raise Unsupported("different masks")
                gs.append(x.bgetter())
            elif is_scalar(x):
                gs.append((lambda s: lambda i: s)(lift(x)))
            else:
                raise Unsupported("mix of filtered and full")
        k = fn(gs[0](E().KSUM), gs[1](E().KSUM)).k
        return FArr(f.n, f.mask, lambda i: fn(gs[0](i), gs[1](i)), k)
    a = a if is_scalar(a) else as_arr(a)
    b = b if is_scalar(b) else as_arr(b)
    sa = a.zs if isinstance(a, SymArr) else ()
    sb = b.zs if isinstance(b, SymArr) else ()
    sh = A.bshape(sa, sb)
    ga, gb = A.bget(a, sh), A.bget(b, sh)
    e = E()
    e.noreg += 1
    try:
        k = fn(ga([e.KSUM] * len(sh)), gb([e.KSUM] * len(sh))).k
    finally:
        e.noreg -= 1
    return new(k, sh, lambda idx: fn(ga(idx), gb(idx)))


maximum, minimum = _mm(True), _mm(False)
fmax, fmin = _mm(True, False), _mm(False, False)


def clip(x, lo, hi, out=None, **kw):
    r = x
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    if is_scalar(c):
        cc = cast(lift(c), 'b').v
        if is_scalar(a) and is_scalar(b):
            return unlift(s_ite(cc, lift(a), lift(b)))
        raise Unsupported("where with scalar condition")
    c = as_arr(c)
    if isinstance(c, FArr):
        def g_of(x):
            if isinstance(x, FArr):
                if not c.same_mask(x.n, x.mask):
                    raise Unsupported("different masks")
                return x.bgetter(), x.k
            if is_scalar(x):
                s = lift(x)
                return (lambda i: s), s.k
            raise Unsupported("where mix")
        (g1, k1), (g2, k2), gc = g_of(a), g_of(b), c.bgetter()
        k = 'f' if 'f' in (k1, k2) else k1
        return FArr(c.n, c.mask, lambda i: s_ite(
            cast(gc(i), 'b').v, cast(g1(i), k), cast(g2(i), k)), k)
    shs = [c.zs]
    ks = []
    for x in (a, b):
        if is_scalar(x):
            ks.append(lift(x).k)
        else:
            xx = as_arr(x)
            shs.append(xx.zs)
            ks.append(xx.k)
    sh = A.bshape(*shs)
    gc, ga, gb = A.bget(c, sh), A.bget(a, sh), A.bget(b, sh)
    k = 'f' if 'f' in ks else 'i' if 'i' in ks else ks[0]
    return new(k, sh, lambda idx: s_ite(
        cast(gc(idx), 'b').v, cast(ga(idx), k), cast(gb(idx), k)))


def nonzero(c):
    c = as_arr(c)
    if isinstance(c, FArr):
        c = c.dense()
    if c.ndim != 1:
        raise Unsupported("nonzero n-D")
    g = c.snap()
    n = c.zs[0]
    idx = new('i', [n], lambda i: Sc('i', i[0]))
    m = c if c.k == 'b' else c.astype(bool)
    return (A.filt(idx, m),)


def flatnonzero(c):
    return nonzero(c)[0]


def count_nonzero(c, **kw):
    c = as_arr(c)
    return A.a_sum(c if c.k == 'b' else (c != 0))


def sum(a, axis=None, **kw):
    if is_scalar(a):
        return a
    if isinstance(a, types.GeneratorType):
        raise Unsupported("np.sum of generator")
    return A.a_sum(as_arr(a), axis)


def mean(a, axis=None, **kw):
    return A.a_mean(as_arr(a), axis)


def average(a, axis=None, weights=None, **kw):
    if kw:
        raise Unsupported("average")
    if weights is None:
        return mean(a, axis)
    a, weights = as_arr(a), as_arr(weights)
    if a.ndim != 1:
        raise Unsupported("average n-D")
    return A.a_sum(a * weights) / A.a_sum(weights)


def prod(a, axis=None):
    a = as_arr(a)
    n = num(a.zs[0])
    if n is None or a.ndim != 1:
        raise Unsupported("prod")
    r = lift(1)
    for x in a:
        r = r * x
    return r


def median(a, axis=None, **kw):
    """Order statistic: only bounds are known (min <= median <= max)."""
    e = E()
    a = as_arr(a)
    if isinstance(a, SymArr) and a.ndim != 1:
        raise Unsupported("median n-D")
    n, g, m = A._flat(a)
    c = e.__dict__.setdefault("_medcache", {})
    e.noreg += 1
    try:
        key = (n.get_id(), g(e.KSUM).v.get_id(),
               m(e.KSUM).get_id() if m else None)
    finally:
        e.noreg -= 1
    if key in c:
        return c[key][0]
    r = e.freal("median")
    ne = A.a_exists(n, m if m else (lambda i: TRUE))
    bad = zor(znot(ne), A.anybad(n, g, m, e))
    res = Sc('f', r, bad)
    c[key] = (res, n)
    lo, hi = e.fint("medlo"), e.fint("medhi")
    e.reg(lo, n)
    e.reg(hi, n)

    def ok(i):
        return zand(i >= 0, i < n, m(i) if m else TRUE)
    e.fact(z3.Implies(znot(bad), zand(
        ok(lo), ok(hi), toreal(g(lo).v) <= r, r <= toreal(g(hi).v))))
    return res


def any(a, axis=None, **kw):
    if is_scalar(a):
        return cast(lift(a), 'b')
    return A.a_any(as_arr(a), axis)


def all(a, axis=None, **kw):
    if is_scalar(a):
        return cast(lift(a), 'b')
    return A.a_all(as_arr(a), axis)


def max(a, axis=None, **kw):
    if is_scalar(a):
        return a
    return A.a_minmax(as_arr(a), True)


def min(a, axis=None, **kw):
    if is_scalar(a):
        return a
    return A.a_minmax(as_arr(a), False)


amax, amin = max, min


def argmin(a, **kw):
    return A.a_argm(as_arr(a), False)


def argmax(a, **kw):
    return A.a_argm(as_arr(a), True)


def argsort(a, axis=-1, kind=None, order=None, **kw):
    if isinstance(a, SymStruct):
        return a.argsort(order=order)
    if isinstance(a, np.ndarray):
        return np.argsort(a, kind=kind)
    a = as_arr(a)
    if isinstance(a, FArr):
        a = a.dense()
    return sets.argsort(a)


def lexsort(keys, **kw):
    ks = [as_arr(k) for k in keys]
    ks = [k.dense() if isinstance(k, FArr) else k for k in ks]
    return sets.argsort(None, keys=ks[::-1])


def sort(a, axis=-1, kind=None, order=None):
    if isinstance(a, SymStruct):
        return a[a.argsort(order=order)]
    if isinstance(a, np.ndarray):
        return np.sort(a)
    a = as_arr(a)
    if isinstance(a, FArr):
        a = a.dense()
    b = a.copy()
    b.sort(axis=axis)
    return b


def unique(a, return_index=False, return_inverse=False, return_counts=False,
           **kw):
    if isinstance(a, np.ndarray) and a.dtype.kind in 'USOV':
        return np.unique(a, return_index=return_index,
                         return_inverse=return_inverse,
                         return_counts=return_counts)
    if isinstance(a, SymStruct):
        r = sets.unique(None, True, return_counts, return_inverse, keys=[
            a._d(c) for c in a.dtype.names])
        v = a[r[1]]
        out = (v,) + (r[1:] if return_index else r[2:])
        return out[0] if len(out) == 1 else out
    return sets.unique(a, return_index, return_counts, return_inverse)


def isin(a, b, assume_unique=False, invert=False, **kw):
    if isinstance(b, (set, frozenset)):
        raise Unsupported("isin with a set")
    if isinstance(b, (list, tuple)) and not b:
        a = as_arr(a)
        return A.unop(a, lambda s: Sc('b', TRUE if invert else FALSE), 'b')
    return sets.isin(a, b, invert)


in1d = isin


def intersect1d(a, b, assume_unique=False, return_indices=False):
    if not has_sym((a, b)) and isreal(np.asarray(a)):
        return np.intersect1d(a, b, return_indices=return_indices)
    return sets.intersect1d(a, b, assume_unique, return_indices)


def searchsorted(a, v, side="left", **kw):
    return sets.searchsorted(a, v, side)


def digitize(x, bins, right=False):
    return sets.searchsorted(bins, x, "left" if right else "right")


def concatenate(lst, axis=0, dtype=None, **kw):
    lst = list(lst)
    if not lst:
        raise ValueError("need at least one array to concatenate")
    if builtins.all(isinstance(x, SymStruct) for x in lst):
        return SymStruct.concat(lst)
    if builtins.any(isinstance(x, np.ndarray) and x.dtype.kind in 'USOV'
                    for x in lst):
        return np.concatenate(lst)
    xs = [as_arr(x) for x in lst]
    xs = [x.dense() if isinstance(x, FArr) else x for x in xs]
    if builtins.any(x.ndim == 0 for x in xs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    ks = {x.k for x in xs}
    k = 's' if 's' in ks else 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'
    nd = xs[0].ndim
    ax = axis % nd
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError("dimensions must match exactly")
        for d in range(nd):
            if d != ax:
                A.need_eq(xs[0].zs[d], x.zs[d], "all the input array dims")
    offs = [iv(0)]
    for x in xs:
        offs.append(A.simp_int(zadd(offs[-1], x.zs[ax])))
    gs = [x.snap() for x in xs]

    def fn(idx):
        i = idx[ax]
        r = None
        for j in reversed(range(len(xs))):
            if num(xs[j].zs[ax]) == 0:
                continue
            if r is not None:
                c = zcmp("<", i, offs[j + 1])
                if z3.is_false(c):
                    continue
                v = cast(gs[j](list(idx[:ax]) + [A.simp_int(
                    zsub(i, offs[j]))] + list(idx[ax + 1:])), k)
                r = s_ite(c, v, r)
            else:
                r = cast(gs[j](list(idx[:ax]) + [A.simp_int(
                    zsub(i, offs[j]))] + list(idx[ax + 1:])), k)
        return r if r is not None else A.zero_of(k)
    sh = list(xs[0].zs)
    sh[ax] = offs[-1]
    if k == 'i' and nd == 1 and num(offs[-1]) is None:
        # an element of a part is an element of the whole
        e = E()

        def carry(j):
            def f(i):
                e.reg(A.simp_int(zadd(offs[j], i)), offs[-1])
                return TRUE

            def b(i):
                e.reg(A.simp_int(zsub(i, offs[j])), xs[j].zs[0])
                return TRUE
            e.ufact(f, xs[j].zs[0])
            e.ufact(b, offs[-1])
        for j in range(len(xs)):
            if num(xs[j].zs[0]) is None:
                carry(j)
    return new(k, sh, fn)


def append(a, b, axis=None):
    b = atleast_1d(b) if is_scalar(b) else b
    return concatenate([atleast_1d(a), atleast_1d(b)])


def hstack(lst):
    lst = list(lst)
    if lst and builtins.all(isinstance(x, np.void) or (
            isinstance(x, np.ndarray) and x.dtype.kind in 'USOV')
            for x in lst):
        return np.hstack(lst)
    lst = [atleast_1d(x) if is_scalar(x) else x for x in lst]
    xs = [as_arr(x) for x in lst]
    return concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


def vstack(lst):
    xs = [as_arr(x) for x in lst]
    if builtins.all(x.ndim == 1 for x in xs):
        return A.stack_list(xs)
    return concatenate([x[None, :] if x.ndim == 1 else x for x in xs], axis=0)


def stack(lst, axis=0):
    if axis != 0:
        xs = A.stack_list([as_arr(x) for x in lst])
        if axis in (1, -1) and xs.ndim == 2:
            return xs.T
        raise Unsupported("stack axis")
    return A.stack_list([as_arr(x) for x in lst])


def column_stack(lst):
    return stack(lst, 1)


def split(a, sections, axis=0):
    """np.split at given positions (concrete number of positions)."""
    if isinstance(a, (np.ndarray)):
        a = as_arr(a) if a.dtype.kind not in 'USOV' else a
    if is_scalar(sections):
        raise Unsupported("split into equal sections")
    sec = as_arr(sections) if not isinstance(sections, list) else sections
    if isinstance(sec, FArr):
        sec = sec.dense()
    n = num(sec.zs[0]) if isinstance(sec, SymArr) else len(sec)
    if n is None:
        from .symlist import SymList
        e = E()
        ns = sec.zs[0]
        na = a.n if isinstance(a, SymStruct) else a.zs[0]

        def elem(k):
            lo, hi = e.fint("lo"), e.fint("hi")
            e.fact(lo == z3.If(k <= 0, iv(0), sec.get([k - 1]).v))
            e.fact(hi == z3.If(k >= ns, na, sec.get([k]).v))
            e.reg(k - 1, ns)
            e.reg(k, ns)
            e.reg(lo, na)
            r = a[slice(Sc('i', lo), Sc('i', hi))]
            r._vf_range = (lo, hi)
            return r
        return SymList(ns + 1, elem)
    pos = [sec[i] for i in range(int(n))]
    out = []
    prev = 0
    for p in pos + [None]:
        if isinstance(a, ObjArr):
            out.append(a[prev:p])
        elif isinstance(a, np.ndarray):
            out.append(a[int(prev):None if p is None else int(p)])
        elif isinstance(a, SymStruct):
            out.append(a[slice(prev, p)])
        else:
            out.append(a[prev:p])
        prev = p
    return out


array_split = split


def dot(a, b):
    if is_scalar(a) or is_scalar(b):
        return a * b
    return A.a_dot(as_arr(a), as_arr(b))


def matmul(a, b):
    return A.a_matmul(as_arr(a), as_arr(b))


inner = vdot = dot


def outer(a, b, out=None):
    a, b = as_arr(a), as_arr(b)
    ga, gb = a.snap(), b.snap()
    k = A.rkind("*", a.k, b.k)
    r = new(k, [a.zs[0], b.zs[0]], lambda idx: arith_s(
        "*", ga([idx[0]]), gb([idx[1]])))
    if out is not None:
        out._assign(r)
        return out
    return r


def einsum(spec, *ops, **kw):
    spec = spec.replace(" ", "")
    ins, out = spec.split("->")
    ins = ins.split(",")
    ops = [as_arr(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum dimensions")
        for c, z in zip(s, o.zs):
            if c in dims:
                A.need_eq(dims[c], z)
            else:
                dims[c] = z
    sumc = [c for c in dims if c not in out]
    if len(sumc) > 1:
        raise Unsupported("einsum over several indices")
    gs = [o.snap() for o in ops]
    e = E()

    def body(env):
        v = None
        for s, g in zip(ins, gs):
            x = g([env[c] for c in s])
            v = x if v is None else arith_s("*", v, x)
        return v

    def fn(idx):
        env = dict(zip(out, idx))
        if not sumc:
            return body(env)
        c = sumc[0]

        def b(i):
            ee = dict(env)
            ee[c] = i
            return toreal(body(ee).v)
        n = dims[c]
        bad = A.a_exists(n, lambda i: body({**env, c: i}).bad)
        return Sc('f', e.mksum(n, b), bad)
    if not out:
        return fn([])
    return new('f', [dims[c] for c in out], fn)


def bincount(x, weights=None, minlength=0):
    e = E()
    x = as_arr(x)
    n, gx, mx = A._flat(x)
    if weights is None:
        gw = None
    else:
        weights = as_arr(weights)
        if isinstance(x, FArr):
            if not isinstance(weights, FArr) or not x.same_mask(
                    weights.n, weights.mask):
                raise Unsupported("bincount masks")
            gw = weights.bgetter()
        else:
            if isinstance(weights, FArr):
                raise Unsupported("bincount masks")
            A.need_eq(n, weights.zs[0], "weights and list don't have the "
                      "same length")
            s = weights.snap()
            gw = (lambda i: s([i]))
    # length: max(x)+1 or minlength; negative values raise
    sk = e.fint("bc")
    e.reg(sk, n)
    t = gx(sk).v
    inm = zand(sk >= 0, sk < n, mx(sk) if mx else TRUE)
    if not e.entail(z3.Implies(inm, t >= 0)):
        b = e.fbool("neg")
        e.fact(z3.Implies(b, zand(inm, t < 0)))
        if e.branch(b):
            raise ValueError("'list' argument must have no negative elements")
        e.ufact(lambda i: z3.Implies(
            zand(i >= 0, i < n, mx(i) if mx else TRUE), gx(i).v >= 0), n)
    ml = zi(minlength)
    if e.entail(z3.Implies(inm, t < ml)):
        L = ml
    else:
        L = e.fint("bclen")
        e.fact(L >= ml)
        e.ufact(lambda i: z3.Implies(
            zand(i >= 0, i < n, mx(i) if mx else TRUE), gx(i).v < L), n)
        w = e.fint("wit")
        e.reg(w, n)
        e.fact(zor(L == ml, zand(
            w >= 0, w < n, mx(w) if mx else TRUE, gx(w).v == L - 1)))

    def pred(j):
        return lambda i: zand(mx(i) if mx else TRUE,
                              zcmp("==", gx(i).v, j))
    if gw is None:
        return new('i', [L], lambda idx: Sc('i', e.mkcount(n, pred(idx[0]))))
    bad = A.anybad(n, gw, mx, e)

    def fn(idx):
        p = pred(idx[0])
        return Sc('f', e.mksum(n, lambda i: zite(
            p(i), toreal(gw(i).v), R0)), bad)
    return new('f', [L], fn)


def pad(a, w, mode="constant", **kw):
    a = as_arr(a)
    g = a.snap()
    if is_scalar(w):
        w = ((w, w),) * a.ndim
    elif len(w) == 2 and is_scalar(w[0]):
        w = (tuple(w),) * a.ndim
    if len(w) == 1:
        w = tuple(w) * a.ndim
    lo = [zi(x[0]) for x in w]
    sh = [A.simp_int(zadd(zadd(z, zi(x[0])), zi(x[1])))
          for z, x in zip(a.zs, w)]

    def fn(idx):
        src = []
        g_ = []
        for i, o, z in zip(idx, lo, a.zs):
            j = A.simp_int(zsub(i, o))
            src.append(j)
            g_.append(zand(zcmp("<=", iv(0), j), zcmp("<", j, z)))
        if mode == "edge":
            src = [zite(zcmp("<", j, iv(0)), iv(0), zite(
                zcmp("<", j, z), j, zsub(z, iv(1))))
                for j, z in zip(src, a.zs)]
            return g(src)
        if mode != "constant" or kw:
            raise Unsupported("pad mode")
        c = zand(*g_)
        if z3.is_false(c):
            return A.zero_of(a.k)
        return s_ite(c, g(src), A.zero_of(a.k))
    return new(a.k, sh, fn)


def repeat(a, n, axis=None):
    if is_scalar(a) and axis is None:
        return full(n, a)
    a = as_arr(a)
    g = a.snap()
    nz = zi(n)
    if a.ndim == 1:
        return new(a.k, [zmul(a.zs[0], nz)], lambda idx: g([idx[0] / nz]))
    if axis == 0 and num(a.zs[0]) == 1:
        return new(a.k, [nz] + list(a.zs[1:]), lambda idx: g(
            [iv(0)] + list(idx[1:])))
    raise Unsupported("repeat")


def tile(a, reps):
    a = as_arr(a)
    if isinstance(reps, tuple) and len(reps) == 2 and reps[1] == 1 and \
            a.ndim == 1:
        g = a.snap()
        return new(a.k, [zi(reps[0]), a.zs[0]], lambda idx: g([idx[1]]))
    raise Unsupported("tile")


def broadcast_to(a, shape):
    sh = _shape(shape)
    g = A.bget(a, sh)
    k = lift(a).k if is_scalar(a) else as_arr(a).k
    return new(k, sh, g)


def diff(a, n=1, **kw):
    a = as_arr(a)
    if isinstance(a, FArr):
        a = a.dense()
    if n != 1 or a.ndim != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


def cumsum(a, **kw):
    e = E()
    a = as_arr(a)
    g = a.snap()
    c = num(a.zs[0])
    if c is None or c > 40:
        raise Unsupported("cumsum of symbolic length")
    out, acc = [], None
    for i in range(int(c)):
        x = g([iv(i)])
        if x.k == 'b':
            x = cast(x, 'i')
        acc = x if acc is None else arith_s("+", acc, x)
        out.append(acc)
    return A.stack_list(out) if out else a.copy()


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = abs(subtract(a, b))
    lim = add(atol, multiply(rtol, abs(b)))
    r = less_equal(d, lim)
    if is_scalar(r):
        return r
    return A.a_all(r)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = abs(subtract(a, b))
    return less_equal(d, add(atol, multiply(rtol, abs(b))))


def array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.zs, b.zs):
        if not E().branch(zcmp("==", x, y)):
            return False
    r = A.binop("==", a, b)
    return bool(A.a_all(r))


def interp(x, xp, fp, **kw):
    """Piecewise-linear interpolation on sorted xp, clamped."""
    if kw:
        raise Unsupported("interp options")
    xp, fp = as_arr(xp), as_arr(fp)
    gx, gf = xp.snap(), fp.snap()
    n = xp.zs[0]

    def one(s):
        s = cast(lift(s), 'f')
        j = lift(sets.searchsorted(xp, s, "right"))
        E().reg(j.v, n)
        lo, hi = gx([iv(0)]), gx([zsub(n, iv(1))])
        j0, j1 = zsub(j.v, iv(1)), j.v
        x0, x1 = gx([j0]), gx([j1])
        f0, f1 = cast(gf([j0]), 'f'), cast(gf([j1]), 'f')
        mid = (f1 - f0) / (x1 - x0) * (s - x0) + f0
        r = s_ite(zcmp("<=", s.v, toreal(lo.v)), cast(gf([iv(0)]), 'f'),
                  s_ite(zcmp(">=", s.v, toreal(hi.v)),
                        cast(gf([zsub(n, iv(1))]), 'f'), mid))
        return Sc('f', r.v, zor(r.bad, s.bad))
    if is_scalar(x):
        return one(x)
    return A.unop(as_arr(x), one, 'f')


def finfo(t):
    return np.finfo(float)


def shape(a):
    return as_arr(a).shape


def size(a):
    return as_arr(a).size


def ndim(a):
    return 0 if is_scalar(a) else as_arr(a).ndim


def copy(a):
    return a.copy()


def ravel(a):
    return as_arr(a).ravel()


def reshape(a, s):
    return as_arr(a).reshape(s)


def transpose(a):
    return as_arr(a).T


def squeeze(a):
    a = as_arr(a)
    for d, z in enumerate(a.zs):
        if num(z) == 1:
            return squeeze(a[tuple(0 if i == d else slice(None)
                                   for i in range(a.ndim))])
    return a


def isscalar(x):
    return is_scalar(x) or isinstance(x, str)


def nan_to_num(x, nan=0.0, **kw):
    if kw:
        raise Unsupported("nan_to_num")
    return _ew(lambda s: s_ite(s.bad, lift(float(nan)), Sc(s.k, s.v)))(x)


def swap_like():
    raise Unsupported("")


class _Err:
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


errstate = _Err
s_ = np.s_
pi, nan, inf, newaxis, e = np.pi, np.nan, np.inf, None, np.e
float_, float64, double = np.float64, np.float64, np.float64
float32 = np.float32
int_, int64, int32, intp = np.int64, np.int64, np.int32, np.intp
bool_ = np.bool_
str_ = np.str_
LinAlgError = np.linalg.LinAlgError


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArr, FArr, SymStruct, np.ndarray))


class ndarray(metaclass=_NDMeta):
    pass


class _Sub:
    def __init__(self, real, name):
        self._r, self._n = real, name

    def __getattr__(self, k):
        r = getattr(self._r, k)
        if isinstance(r, type):
            return r
        return _guard(r, f"{self._n}.{k}")


def _guard(fn, name):
    if not callable(fn):
        return fn

    def g(*a, **kw):
        if has_sym(a) or has_sym(kw):
            hook = E().__dict__.get("np_hooks", {}).get(name)
            if hook is not None:
                return hook(*a, **kw)
            raise Unsupported(f"np.{name}")
        r = fn(*a, **kw)
        if isinstance(r, np.ndarray) and r.dtype.kind in 'fiub':
            return A.lit_array(r)
        return r
    g.__name__ = name
    return g


def make():
    m = types.ModuleType("numpy")
    skip = {"E", "A", "G", "sets", "np", "z3", "builtins", "types"}
    here = globals()
    names = [k for k in here if not k.startswith("_") and k not in skip]
    for k in names:
        v = here[k]
        if hasattr(np, k) or k in ("ndarray", "float_", "int_"):
            setattr(m, k, v)

    def ga(name):
        r = getattr(np, name)
        if isinstance(r, types.ModuleType):
            return _Sub(r, name)
        if isinstance(r, type):
            return r
        return _guard(r, name)
    m.__getattr__ = ga
    m.dtype = np.dtype
    return m
