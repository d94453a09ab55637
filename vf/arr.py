"""Symbolic arrays: a numpy ndarray model with symbolic shapes.

An array is a view on a buffer; a buffer is a closure from index terms to
scalars.  Nothing here is bounded: lengths are z3 Ints."""
import itertools

import numpy as np
import z3

from .terms import (
    simp_int,
    Unsupported, TRUE, FALSE, R0, R1, rv, iv, num, same, zand, zor, znot, zite,
    toreal, zadd, zsub, zneg, zmul, poly, padd, pdiv, unpoly, pzero,
    as_int_affine, _ATOMS)
from .engine import (
    E, Sc, DT, lift, arith_s, cast, s_ite, zcmp, kind_of_dtype, is_scalar,
    s_fun, s_abs, s_round, intern)

_birth = itertools.count()


def zi(x):
    """Dimension / index -> z3 Int."""
    if isinstance(x, Sc):
        if x.k == 'f':
            raise TypeError("float used as an index")
        return x.v if x.k != 'b' else zite(x.v, iv(1), iv(0))
    if isinstance(x, (int, np.integer)):
        return iv(int(x))
    if isinstance(x, (float, np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if z3.is_expr(x):
        return x
    raise Unsupported(f"index {type(x)}")


def szi(t):
    n = num(t)
    return t if n is None else iv(n)


def pyint(t):
    """int if numeral else Sc."""
    n = num(t)
    return int(n) if n is not None else Sc('i', t)


class Buf:
    __slots__ = ("_fn", "shape", "k", "birth", "pre", "memo", "name",
                 "wguards")

    def __init__(self, k, shape, fn, name=""):
        self.k, self.shape = k, tuple(shape)
        self.birth = next(_birth)
        self.name = name
        self.pre = None
        self.wguards = None
        self.setfn(fn)

    def setfn(self, fn):
        memo = {}

        def g(idx):
            key = tuple(i.get_id() for i in idx)
            h = memo.get(key)
            if h is None:
                jdx = [simp_int(i) for i in idx]
                if any(i is not j for i, j in zip(idx, jdx)):
                    h = (idx, g(jdx))
                else:
                    h = (idx, lift(fn(idx)))
                memo[key] = h
            return h[1]
        self._fn = g

    @property
    def fn(self):
        return self._fn


def new(k, shape, fn, name=""):
    shape = tuple(simp_int(zi(s)) for s in shape)
    b = Buf(k, shape, fn, name)
    return SymArr(b, tuple(('m', d, iv(0), 1) for d in range(len(shape))),
                  shape)


class SymArr:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, buf, bmap, zshape):
        self.buf, self.bmap, self.zs = buf, bmap, tuple(zshape)

    # ---------------------------------------------------------------- basics
    @property
    def k(self):
        return self.buf.k

    @property
    def dtype(self):
        return DT(self.buf.k)

    @property
    def ndim(self):
        return len(self.zs)

    @property
    def shape(self):
        return tuple(pyint(s) for s in self.zs)

    @property
    def size(self):
        r = iv(1)
        for s in self.zs:
            r = zmul(r, s)
        return pyint(r)

    def __len__(self):
        n = num(self.zs[0])
        if n is None:
            raise Unsupported("len() of a symbolic array")
        return int(n)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if all(num(s) == 1 for s in self.zs):
            return bool(self.get([iv(0)] * self.ndim))
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous.")

    def __contains__(self, x):
        return bool(a_any(self == x))

    def __iter__(self):
        n = num(self.zs[0])
        if n is None:
            raise Unsupported("iteration over a symbolic-length array")
        return iter([self[i] for i in range(int(n))])

    def bidx(self, idx):
        out = []
        for m in self.bmap:
            if m[0] == 'f':
                out.append(m[1])
            else:
                i = idx[m[1]]
                if m[3] == 1:
                    out.append(simp_int(zadd(i, m[2])))
                else:
                    out.append(simp_int(zadd(zmul(iv(m[3]), i), m[2])))
        return out

    def get(self, idx):
        idx = [zi(i) for i in idx]
        for i, z in zip(idx, self.zs):
            E().reg(i, z)
        b = self.bidx(idx)
        for i, z in zip(b, self.buf.shape):
            E().reg(i, z)
        return self.buf.fn(b)

    def snap(self):
        fn, self_bidx = self.buf.fn, self.bidx
        zs, bz = self.zs, self.buf.shape

        def g(idx):
            e = E()
            for i, z in zip(idx, zs):
                e.reg(i, z)
            b = self_bidx(idx)
            for i, z in zip(b, bz):
                e.reg(i, z)
            return fn(b)
        return g

    def write(self, val, cond=None):
        """Assign val(idx)->Sc where cond(idx)->z3 Bool on the view."""
        buf = self.buf
        old = buf.fn
        bmap, zs, k = self.bmap, self.zs, buf.k

        def guard_idx(b):
            idx = [None] * len(zs)
            g = []
            for m, x in zip(bmap, b):
                if m[0] == 'f':
                    g.append(zcmp("==", x, m[1]))
                else:
                    _, d, off, st = m
                    if st == 1:
                        i = simp_int(zsub(x, off))
                    elif st == -1:
                        i = simp_int(zsub(off, x))
                    else:
                        raise Unsupported("write through a strided view")
                    idx[d] = i
                    # bounds of the buffer itself are implied
                    if not (num(off) == 0 and st == 1):
                        g.append(zcmp("<=", iv(0), i))
                    g2 = True
                    if num(off) == 0 and st == 1:
                        bs = buf.shape[list(bmap).index(m)]
                        g2 = not same(bs, zs[d])
                    if g2:
                        g.append(zcmp("<", i, zs[d]))
            for d in range(len(zs)):
                if idx[d] is None:
                    idx[d] = iv(0)
            return zand(*g), idx

        def fn(b):
            g, idx = guard_idx(b)
            if z3.is_false(g):
                return old(b)
            if cond is not None:
                g = zand(g, cond(idx))
                if z3.is_false(g):
                    return old(b)
            v = cast(val(idx), k)
            if z3.is_true(g):
                return v
            return s_ite(g, v, old(b))
        if buf.wguards is not None:
            def wg(b):
                g, idx = guard_idx(b)
                if cond is not None and not z3.is_false(g):
                    g = zand(g, cond(idx))
                return g
            buf.wguards.append(wg)
        elif E().rec is not None and buf.birth < E().rec.birth:
            E().rec.touch(buf)
        if E().wlog is not None:
            E().wlog.append(buf)
        buf.setfn(fn)

    # -------------------------------------------------------------- indexing
    def _norm(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            nn = sum(1 for k in key if k is not None) - 1
            key = key[:p] + (slice(None),) * (self.ndim - nn) + key[p + 1:]
        nn = sum(1 for k in key if k is not None)
        if nn > self.ndim:
            raise IndexError("too many indices for array")
        key = key + (slice(None),) * (self.ndim - nn)
        return key

    def _view(self, key):
        """Basic indexing -> SymArr view (ndim may be 0)."""
        newshape = []
        dmap = {}
        d = 0
        for k in key:
            if k is None:
                newshape.append(iv(1))
                continue
            n = self.zs[d]
            if isinstance(k, slice):
                st = 1 if k.step is None else int(k.step)
                if st == -1 and k.start is None and k.stop is None:
                    dmap[d] = ('m', len(newshape), zsub(n, iv(1)), -1)
                    newshape.append(n)
                    d += 1
                    continue
                if st < 1:
                    raise Unsupported("negative stride")
                a = clamp(k.start, n, iv(0))
                b = clamp(k.stop, n, n)
                ln = simp_int(zsub(b, a))
                if num(ln) is not None:
                    ln = iv(max(0, num(ln)))
                elif not E().entail(ln >= 0):
                    ln = zite(ln >= 0, ln, iv(0))
                if st > 1:
                    ln = (ln + (st - 1)) / iv(st)
                dmap[d] = ('m', len(newshape), a, st)
                newshape.append(ln)
            else:
                i = fixidx(k, n)
                dmap[d] = ('f', i)
            d += 1
        bm = []
        for m in self.bmap:
            if m[0] == 'f':
                bm.append(m)
            else:
                _, dd, off, st = m
                q = dmap[dd]
                if q[0] == 'f':
                    bm.append(('f', simp_int(zadd(zmul(iv(st), q[1]), off))))
                else:
                    bm.append(('m', q[1],
                               simp_int(zadd(zmul(iv(st), q[2]), off)),
                               st * q[3]))
        return SymArr(self.buf, tuple(bm), newshape)

    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError("only integers, slices...")
        key = self._norm(key)
        adv = [i for i, k in enumerate(key) if not (
            k is None or isinstance(k, slice) or is_scalar(k))]
        if not adv:
            v = self._view(key)
            if v.ndim == 0:
                return unlift(v.get([]))
            return v
        if len(adv) == 1:
            p = adv[0]
            ix = as_arr(key[p])
            if ix.k == 'b':
                rest = [k for i, k in enumerate(key) if i != p]
                if self.ndim == 1:
                    return filt(self, ix)
                if isinstance(ix, FArr):
                    raise Unsupported("filtered mask on 2-D")
                # one mask on one axis of an n-D array
                sub = self._view(tuple(
                    slice(None) if i == p else k for i, k in enumerate(key)))
                ax = sum(1 for i, k in enumerate(key[:p])
                         if isinstance(k, slice))
                if sub.ndim == 1:
                    return filt(sub, ix)
                return filt_axis(sub, ix, ax)
            if ix.k != 'i':
                raise IndexError("arrays used as indices must be of integer "
                                 "(or boolean) type")
            sub = self._view(tuple(
                slice(None) if i == p else k for i, k in enumerate(key)))
            ax = sum(1 for i, k in enumerate(key[:p])
                     if k is None or isinstance(k, slice))
            return gather(sub, ix, ax)
        raise Unsupported("several advanced indices")

    def __setitem__(self, key, val):
        if isinstance(key, str):
            raise IndexError("only integers, slices...")
        key = self._norm(key)
        adv = [i for i, k in enumerate(key) if not (
            k is None or isinstance(k, slice) or is_scalar(k))]
        if not adv:
            v = self._view(key)
            v._assign(val)
            return
        if len(adv) != 1:
            raise Unsupported("several advanced indices in assignment")
        p = adv[0]
        ix = as_arr(key[p])
        sub = self._view(tuple(
            slice(None) if i == p else k for i, k in enumerate(key)))
        ax = sum(1 for i, k in enumerate(key[:p])
                 if k is None or isinstance(k, slice))
        if ix.k == 'b':
            if sub.ndim == ix.ndim and ix.ndim > 1:
                need_same_shape(sub.zs, ix.zs)
                mg = ix.snap()
                vg = bget(val, sub.zs)
                sub.write(vg, lambda idx: mg(idx).v)
                return
            if isinstance(ix, FArr):
                raise Unsupported("assignment through a filtered mask")
            need_eq(sub.zs[ax], ix.zs[0], "boolean index did not match")
            mg = ix.snap()
            if isinstance(val, FArr):
                if not val.same_mask(sub.zs[ax], lambda i: mg([i]).v):
                    raise Unsupported("assignment with different masks")
                g = val.bgetter()
                sub.write(lambda idx: g(idx[ax]), lambda idx: mg([idx[ax]]).v)
                return
            if is_scalar(val):
                s = lift(val)
                sub.write(lambda idx: s, lambda idx: mg([idx[ax]]).v)
                return
            val = as_arr(val)
            if val.ndim == 0 or all(num(s) == 1 for s in val.zs):
                s = val.get([iv(0)] * val.ndim)
                sub.write(lambda idx: s, lambda idx: mg([idx[ax]]).v)
                return
            raise Unsupported("assignment of an array through a mask")
        # integer scatter
        if isinstance(ix, FArr):
            scatter_filtered(sub, ax, ix, val)
            return
        scatter(sub, ax, ix, val)

    def _assign(self, val):
        if is_scalar(val) or isinstance(val, str):
            s = lift(val)
            self.write(lambda idx: s)
            return
        if isinstance(val, FArr):
            e = val.dense()
            val = e
        g = bget(val, self.zs)
        self.write(g)

    # ------------------------------------------------------------ operations
    def copy(self, *a, **k):
        g = self.snap()
        return new(self.k, self.zs, g, self.buf.name)

    def astype(self, t, copy=True):
        k = kind_of_dtype(t)
        g = self.snap()
        if k == 'i' and self.k == 'f':
            return trunc_arr(self)
        return new(k, self.zs, lambda i: cast(g(i), k))

    @property
    def T(self):
        n = self.ndim
        bm = tuple(m if m[0] == 'f' else ('m', n - 1 - m[1], m[2], m[3])
                   for m in self.bmap)
        return SymArr(self.buf, bm, self.zs[::-1])

    def fill(self, v):
        s = lift(v)
        self.write(lambda idx: s)

    def ravel(self):
        return reshape(self, (-1,))

    flatten = ravel

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = s[0]
        return reshape(self, s)

    def sum(self, axis=None, **k):
        return a_sum(self, axis)

    def mean(self, axis=None):
        return a_mean(self, axis)

    def any(self, axis=None):
        return a_any(self, axis)

    def all(self, axis=None):
        return a_all(self, axis)

    def max(self, *a):
        return a_minmax(self, True)

    def min(self, *a):
        return a_minmax(self, False)

    def dot(self, o):
        return a_dot(self, o)

    def argmax(self):
        return a_argm(self, True)

    def argmin(self):
        return a_argm(self, False)

    def argsort(self, *a, kind=None, order=None, **k):
        from . import sets
        return sets.argsort(self)

    def sort(self, axis=-1, **k):
        if self.ndim == 2 and axis in (1, -1) and num(self.zs[1]) == 2:
            g = self.snap()

            def val(idx):
                a, b = g([idx[0], iv(0)]), g([idx[0], iv(1)])
                lt = zcmp("<=", a.v, b.v)
                return s_ite(zcmp("==", idx[1], iv(0)),
                             s_ite(lt, a, b), s_ite(lt, b, a))
            self.write(val)
            return
        from . import sets
        sets.sort_inplace(self)

    def tolist(self):
        return list(self)

    def item(self):
        return unlift(self.get([iv(0)] * self.ndim))

    def __matmul__(self, o):
        return a_matmul(self, as_arr(o))

    def __neg__(self):
        return unop(self, lambda x: -x, self.k)

    def __pos__(self):
        return self.copy()

    def __invert__(self):
        return unop(self, lambda x: ~x, self.k)

    def __abs__(self):
        return unop(self, s_abs, self.k)


def unlift(s):
    """Plain python number for concrete int/bool scalars."""
    if s.k in 'ib':
        n = num(s.v) if s.k == 'i' else None
        if n is not None:
            return int(n)
    return s


def clamp(x, n, default):
    if x is None:
        return default
    x = zi(x)
    c = num(x)
    nn = num(n)
    if c is not None and nn is not None:
        c, nn = int(c), int(nn)
        if c < 0:
            c = max(0, c + nn)
        return iv(min(c, nn))
    e = E()
    if c is not None and c < 0:
        r = simp_int(zadd(n, x))
        if e.entail(r >= 0):
            return r
        return zite(r >= 0, r, iv(0))
    if c == 0:
        return iv(0)
    if e.entail(zand(zcmp(">=", x, iv(0)), zcmp("<=", x, n))):
        return x
    pos = zite(zcmp("<=", x, n), x, n)
    if e.entail(x >= 0):
        return pos
    neg = zite(x + n >= 0, x + n, iv(0))
    return zite(x >= 0, pos, neg)


def fixidx(k, n):
    i = zi(k)
    c = num(i)
    e = E()
    if e.spec:
        # contract text: ranges are stated by the contract itself
        return simp_int(zadd(n, i)) if c is not None and c < 0 else i
    if c is not None and c < 0:
        i = simp_int(zadd(n, i))
        ok = zcmp(">=", i, iv(0))
    elif c is not None:
        ok = zcmp("<", i, n)
    else:
        inb = zand(zcmp(">=", i, iv(0)), zcmp("<", i, n))
        if e.entail(inb):
            return i
        if e.branch(zand(zcmp("<", i, iv(0)), zcmp(">=", i, zneg(n)))):
            return simp_int(zadd(n, i))
        ok = inb
    if not e.branch(ok):
        raise IndexError("index out of bounds")
    return i


def need_eq(a, b, msg="operands could not be broadcast together"):
    if same(a, b):
        return
    c = zcmp("==", a, b)
    if not E().branch(c):
        raise ValueError(msg)
    E().same_space(a, b)


def need_same_shape(a, b):
    for x, y in zip(a, b):
        need_eq(x, y)


def bshape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = None
        for s in shapes:
            j = d - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if cur is None or num(cur) == 1:
                cur = x if cur is None or num(x) != 1 else cur
                continue
            if num(x) == 1:
                continue
            need_eq(cur, x)
            if num(x) is not None:
                cur = x
        out.append(cur)
    return tuple(out)


def bget(val, shape):
    """Getter of val broadcast to shape."""
    if is_scalar(val) or isinstance(val, str):
        s = lift(val)
        return lambda idx: s
    a = as_arr(val)
    if isinstance(a, FArr):
        a = a.dense()
    while a.ndim > len(shape) and num(a.zs[0]) == 1:
        a = a[0]
        if not isinstance(a, SymArr):
            s = lift(a)
            return lambda idx: s
    if a.ndim > len(shape):
        raise ValueError("could not broadcast input array")
    off = len(shape) - a.ndim
    one = []
    for d, s in enumerate(a.zs):
        t = shape[off + d]
        if num(s) == 1 and num(t) != 1:
            one.append(True)
        else:
            need_eq(s, t, "could not broadcast input array from shape")
            one.append(False)
    g = a.snap()
    return lambda idx: g([iv(0) if o else idx[off + d]
                          for d, o in enumerate(one)])


def lit_array(a):
    """SymArr from a concrete numpy array."""
    a = np.asarray(a)
    k = kind_of_dtype(a.dtype)
    shape = a.shape
    data = a.copy()

    def fn(idx):
        ns = [num(i) for i in idx]
        if all(n is not None for n in ns):
            t = tuple(int(n) for n in ns)
            if any(x < 0 or x >= s for x, s in zip(t, shape)):
                return lift(data.ravel()[0].item()) if data.size else \
                    zero_of(k)
            return lift(data[t].item())
        r = None
        for t in itertools.product(*[range(s) for s in shape]):
            v = lift(data[t].item())
            if r is None:
                r = v
            else:
                r = s_ite(zand(*[zcmp("==", i, iv(x))
                                 for i, x in zip(idx, t)]), v, r)
        return r if r is not None else zero_of(k)
    return new(k, [iv(s) for s in shape], fn)


def zero_of(k):
    return {'f': lambda: Sc('f', R0), 'i': lambda: Sc('i', iv(0)),
            'b': lambda: Sc('b', FALSE), 's': lambda: Sc('s', iv(0))}[k]()


def stack_list(lst):
    """Array from a python list of scalars / arrays."""
    items = [as_arr(x) if not (is_scalar(x) or isinstance(x, str)) else lift(x)
             for x in lst]
    if not items:
        return new('f', [0], lambda i: zero_of('f'))
    if all(isinstance(x, Sc) for x in items):
        ks = {x.k for x in items}
        k = 's' if 's' in ks else 'f' if 'f' in ks else 'i' if 'i' in ks \
            else 'b'

        def fn(idx):
            i = idx[0]
            n = num(i)
            if n is not None:
                n = int(n)
                return cast(items[n if 0 <= n < len(items) else 0], k)
            r = cast(items[0], k)
            for j in range(1, len(items)):
                r = s_ite(zcmp("==", i, iv(j)), cast(items[j], k), r)
            return r
        return new(k, [len(items)], fn)
    if any(isinstance(x, Sc) for x in items):
        raise ValueError("inhomogeneous shape")
    items = [x.dense() if isinstance(x, FArr) else x for x in items]
    sh = items[0].zs
    for x in items[1:]:
        if x.ndim != len(sh):
            raise ValueError("inhomogeneous shape")
        for a, b in zip(sh, x.zs):
            need_eq(a, b, "inhomogeneous shape")
    ks = {x.k for x in items}
    k = 's' if 's' in ks else 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'
    gs = [x.snap() for x in items]

    def fn2(idx):
        n = num(idx[0])
        if n is not None:
            n = int(n)
            return cast(gs[n if 0 <= n < len(gs) else 0](idx[1:]), k)
        r = cast(gs[0](idx[1:]), k)
        for j in range(1, len(gs)):
            r = s_ite(zcmp("==", idx[0], iv(j)), cast(gs[j](idx[1:]), k), r)
        return r
    return new(k, (iv(len(items)),) + tuple(sh), fn2)


def as_arr(x):
    if isinstance(x, (SymArr, FArr)):
        return x
    if isinstance(x, np.ndarray):
        return lit_array(x)
    if isinstance(x, (list, tuple)):
        return stack_list(x)
    if isinstance(x, range):
        return stack_list(list(x))
    if is_scalar(x):
        s = lift(x)
        return new(s.k, [], lambda idx: s)
    f = getattr(x, "_vf_array", None)
    if f is not None:
        return f()
    raise Unsupported(f"array from {type(x)}")


# ------------------------------------------------------------------ elementwise
def unop(a, f, k=None):
    if isinstance(a, FArr):
        g = a.bgetter()
        kk = k or a.k
        return FArr(a.n, a.mask, lambda i: f(g(i)), kk)
    g = a.snap()
    return new(k or a.k, a.zs, lambda idx: f(g(idx)))


def rkind(op, ka, kb):
    if op in ("==", "!=", "<", "<=", ">", ">="):
        return 'b'
    if op in ("&", "|", "^"):
        return 'b' if ka == kb == 'b' else 'i'
    if op == "/":
        return 'f'
    if 'f' in (ka, kb):
        return 'f'
    return 'i'


def binop(op, a, b):
    if isinstance(a, (list, tuple)) or isinstance(a, np.ndarray):
        a = as_arr(a)
    if isinstance(b, (list, tuple)) or isinstance(b, np.ndarray):
        b = as_arr(b)
    if not isinstance(a, (SymArr, FArr)) and not (
            is_scalar(a) or isinstance(a, str)):
        return NotImplemented
    if not isinstance(b, (SymArr, FArr)) and not (
            is_scalar(b) or isinstance(b, str)):
        return NotImplemented
    # filtered operands
    if isinstance(a, FArr) or isinstance(b, FArr):
        if isinstance(a, SymArr) and a.ndim == 0:
            a = a.get([])
        if isinstance(b, SymArr) and b.ndim == 0:
            b = b.get([])
        f = a if isinstance(a, FArr) else b
        for x in (a, b):
            if isinstance(x, SymArr):
                raise Unsupported("mix of filtered and full arrays")
            if isinstance(x, FArr) and x is not f and \
                    not f.same_mask(x.n, x.mask):
                raise Unsupported("different masks")
        ga = a.bgetter() if isinstance(a, FArr) else (lambda s: lambda i: s)(
            lift(a))
        gb = b.bgetter() if isinstance(b, FArr) else (lambda s: lambda i: s)(
            lift(b))
        ka = a.k if isinstance(a, FArr) else lift(a).k
        kb = b.k if isinstance(b, FArr) else lift(b).k
        return FArr(f.n, f.mask, lambda i: arith_s(op, ga(i), gb(i)),
                    rkind(op, ka, kb))
    sa = a.zs if isinstance(a, SymArr) else ()
    sb = b.zs if isinstance(b, SymArr) else ()
    ka = a.k if isinstance(a, SymArr) else lift(a).k
    kb = b.k if isinstance(b, SymArr) else lift(b).k
    sh = bshape(sa, sb)
    ga, gb = bget(a, sh), bget(b, sh)
    if len(sh) == 0:
        return unlift(arith_s(op, ga([]), gb([])))
    k = rkind(op, ka, kb)
    return new(k, sh, lambda idx: arith_s(op, ga(idx), gb(idx)))


def _mkop(op):
    def f(self, o):
        return binop(op, self, o)

    def r(self, o):
        return binop(op, o, self)

    def i(self, o):
        res = binop(op, self, o)
        if isinstance(self, FArr):
            return res
        if isinstance(res, FArr):
            raise Unsupported("in-place op with filtered operand")
        if res is NotImplemented:
            return res
        res = as_arr(res)
        if self.k == 'i' and res.k == 'f':
            raise TypeError("Cannot cast ufunc output from float to int")
        if self.k == 'b' and res.k != 'b':
            raise TypeError("Cannot cast ufunc output")
        self._assign(res)
        return self
    return f, r, i


_OPS = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv",
        "%": "mod", "**": "pow", "&": "and", "|": "or", "^": "xor"}


class FArr:
    """A boolean-mask selection x[w], kept in the index space of its base."""
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, n, mask, getter, k):
        self.n = n            # base length (z3 Int)
        self.mask = mask      # i -> z3 Bool
        self._g = getter
        self.k = k
        self._cnt = None
        self._dense = None

    def __hash__(self):
        return id(self)

    def bgetter(self):
        return self._g

    def same_mask(self, n, mask):
        if mask is self.mask:
            return True
        if not (same(n, self.n) or E().entail(zcmp("==", n, self.n))):
            return False
        e = E()
        e.same_space(n, self.n)
        sk = e.fint("msk")
        e.reg(sk, n)
        a, b = self.mask(sk), mask(sk)
        if same(a, b):
            return True
        return e.entail(z3.Implies(zand(sk >= 0, sk < n), a == b))

    @property
    def cnt(self):
        if self._cnt is None:
            self._cnt = E().mkcount(self.n, self.mask)
        return self._cnt

    @property
    def dtype(self):
        return DT(self.k)

    @property
    def size(self):
        return pyint(self.cnt)

    @property
    def zs(self):
        return (self.cnt,)

    @property
    def shape(self):
        return (self.size,)

    def __len__(self):
        n = num(self.cnt)
        if n is None:
            return len(self.dense())
        return int(n)

    def __bool__(self):
        raise ValueError("truth value ambiguous")

    def __iter__(self):
        return iter(self.dense())

    def copy(self, *a):
        return self

    def astype(self, t):
        k = kind_of_dtype(t)
        return unop(self, lambda x: cast(x, k), k)

    def snap(self):
        return self.dense().snap()

    def get(self, idx):
        return self.dense().get(idx)

    def dense(self):
        """Positional view: enumeration of the mask in increasing order."""
        if self._dense is None and num(self.n) is not None and \
                num(self.n) <= 6 and not E().noreg:
            items = [self._g(iv(i)) for i in range(int(num(self.n)))
                     if E().branch(self.mask(iv(i)))]
            self._dense = stack_list(items) if items else new(
                self.k, [0], lambda idx: zero_of(self.k))
        if self._dense is None:
            from . import sets
            e = sets.enum_of_mask(self.n, self.mask, self.cnt)
            g = self._g
            self._dense = new(self.k, [self.cnt], lambda idx: g(e(idx[0])))
        return self._dense

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, FArr) and key.k == 'b':
            if not self.same_mask(key.n, key.mask):
                raise Unsupported("filter of a filter with a different mask")
            m1, m2 = self.mask, key._g
            return FArr(self.n, lambda i: zand(m1(i), m2(i).v), self._g,
                        self.k)
        if isinstance(key, slice) and key == slice(None):
            return self
        return self.dense()[key]

    def __setitem__(self, key, val):
        # a selection is a copy: writing to it only changes the copy
        if isinstance(key, FArr) and key.k == 'b' and \
                self.same_mask(key.n, key.mask):
            old, m = self._g, key._g
            if is_scalar(val):
                s = lift(val)
                g = (lambda i: s)
            elif isinstance(val, FArr):
                g = val._g
            else:
                raise Unsupported("assign to selection")
            k = self.k
            self._g = lambda i: s_ite(m(i).v, cast(g(i), k), old(i))
            self._dense = None
            return
        if isinstance(key, slice) and key == slice(None):
            if is_scalar(val):
                s = lift(val)
                self._g = lambda i: s
            elif isinstance(val, FArr) and self.same_mask(val.n, val.mask):
                self._g = val._g
            else:
                raise Unsupported("assign to selection")
            self._dense = None
            return
        raise Unsupported("assign to selection")

    def sum(self, axis=None):
        return a_sum(self)

    def mean(self, axis=None):
        return a_mean(self)

    def any(self, axis=None):
        return a_any(self)

    def all(self, axis=None):
        return a_all(self)

    def max(self):
        return a_minmax(self, True)

    def min(self):
        return a_minmax(self, False)

    def dot(self, o):
        return a_dot(self, o)

    def argsort(self, *a, **k):
        from . import sets
        return sets.argsort(self.dense())

    def sort(self, *a, **k):
        raise Unsupported("in-place sort of a selection")

    def __invert__(self):
        return unop(self, lambda x: ~x, 'b')

    def __neg__(self):
        return unop(self, lambda x: -x)

    def __abs__(self):
        return unop(self, s_abs)


for _op, _nm in _OPS.items():
    _f, _r, _i = _mkop(_op)
    for _c in (SymArr, FArr):
        setattr(_c, f"__{_nm}__", _f)
        setattr(_c, f"__r{_nm}__", _r)
        setattr(_c, f"__i{_nm}__", _i)
for _op, _nm in {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt",
                 ">=": "ge"}.items():
    for _c in (SymArr, FArr):
        setattr(_c, f"__{_nm}__",
                (lambda op: lambda self, o: binop(op, self, o))(_op))


def filt(a, m):
    """a[m] with boolean m."""
    if isinstance(a, FArr) or isinstance(m, FArr):
        return a[m]
    need_eq(a.zs[0], m.zs[0], "boolean index did not match")
    n = num(a.zs[0])
    if n is not None:
        vals = [m.get([iv(i)]).v for i in range(int(n))]
        if int(n) <= getattr(E(), "split_small", 0):
            vals = [z3.BoolVal(E().branch(v)) for v in vals]
        if all(z3.is_true(v) or z3.is_false(v) for v in vals):
            ks = [i for i, v in enumerate(vals) if z3.is_true(v)]
            g0 = a.snap()
            items = [g0([iv(i)]) for i in ks]
            if items:
                return stack_list(items)
            return new(a.k, [0], lambda i: zero_of(a.k))
    g, mg = a.snap(), m.snap()
    mk = m.buf.fn
    key = ("mask", id(mk), tuple(x[2].get_id() if x[0] == 'm' else
                                 x[1].get_id() for x in m.bmap))
    cache = E().__dict__.setdefault("_maskcache", {})
    if key not in cache:
        cache[key] = (mk, lambda i: mg([i]).v)
    mask = cache[key][1]
    return FArr(a.zs[0], mask, lambda i: g([i]), a.k)


def filt_axis(a, m, ax):
    """Selection along one axis of an n-D array: dense via enumeration."""
    need_eq(a.zs[ax], m.zs[0], "boolean index did not match")
    mg = m.snap()
    f = FArr(a.zs[ax], lambda i: mg([i]).v, lambda i: Sc('i', i), 'i')
    pos = f.dense()
    return gather(a, pos, ax)


def gather(a, ix, ax=0):
    if isinstance(ix, FArr):
        g, ig = a.snap(), ix.bgetter()
        if a.ndim == 1:
            return FArr(ix.n, ix.mask,
                        lambda i: g([wrapidx(ig(i).v, a.zs[0])]), a.k)
        ix = ix.dense()
    n = a.zs[ax]
    e = E()
    ig = ix.snap()
    # bounds: prove for a generic position, else fork to the IndexError path
    sk = [e.fint("gp") for _ in ix.zs]
    rng = zand(*[zand(s >= 0, s < z) for s, z in zip(sk, ix.zs)])
    t = ig(sk).v
    neg = False
    if not e.entail(z3.Implies(rng, zcmp(">=", t, iv(0)))):
        neg = True
    lo = zneg(n) if neg else iv(0)
    inb = zand(zcmp(">=", t, lo), zcmp("<", t, n))
    if not e.entail(z3.Implies(rng, inb)):
        # some position out of bounds is possible
        if e.rec is not None:
            raise Unsupported("unproved bounds in a symbolic loop")
        b = e.fbool("oob")
        e.fact(z3.Implies(b, zand(rng, znot(inb))))
        if e.branch(b):
            raise IndexError("index out of bounds")
        e.ufact1 = None
        nd = len(sk)
        if nd == 1:
            def uf(i):
                tt = ig([i]).v
                return z3.Implies(
                    zand(i >= 0, i < ix.zs[0]),
                    zand(zcmp(">=", tt, lo), zcmp("<", tt, n)))
            e.ufact(uf, ix.zs[0])
    g = a.snap()
    nd = ix.ndim

    def fn(idx):
        j = ig(idx[ax:ax + nd]).v
        if neg:
            j = wrapidx(j, n)
        return g(list(idx[:ax]) + [j] + list(idx[ax + nd:]))
    return new(a.k, a.zs[:ax] + tuple(ix.zs) + a.zs[ax + 1:], fn)


def wrapidx(j, n):
    c = num(j)
    if c is not None and c >= 0:
        return j
    if E().entail(j >= 0):
        return j
    return zite(j >= 0, j, zadd(j, n))


def affine_index(ix):
    """ix (1-D int array) as position + shift: returns shift term or None."""
    e = E()
    k = z3.Int("k!aff")
    e.noreg += 1
    try:
        t = ix.snap()([k]).v
    finally:
        e.noreg -= 1
    t = resolve_ite(t, k, ix.zs[0])
    try:
        p = poly(t)
    except Unsupported:
        return None
    m = ((k.get_id(), 1),)
    if p.get(m) != 1:
        return None
    rest = {mm: c for mm, c in p.items() if mm != m}
    for mm in rest:
        if any(a == k.get_id() for a, _ in mm):
            return None
    af = as_int_affine(rest)
    if af is None or af[1] != 0:
        return None
    # atoms must not contain k
    if contains(af[0], k):
        return None
    return af[0]


def contains(t, k):
    seen = set()
    st = [t]
    kid = k.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def resolve_ite(t, k, n):
    """Resolve top-level ite conditions that are decided for all 0<=k<n."""
    e = E()
    guard = 0
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and guard < 6:
        guard += 1
        c = t.arg(0)
        e.solver.push()
        e.solver.add(k >= 0, k < n)
        e.flush()
        e.solver.push()
        e.solver.add(znot(c))
        r1 = e._check(timeout=2000) == z3.unsat
        e.solver.pop()
        r2 = False
        if not r1:
            e.solver.push()
            e.solver.add(c)
            r2 = e._check(timeout=2000) == z3.unsat
            e.solver.pop()
        e.solver.pop()
        if r1:
            t = t.arg(1)
        elif r2:
            t = t.arg(2)
        else:
            break
    return t


def trunc_arr(a):
    """astype(int) of a float array, resolving the sign case per array."""
    g = a.snap()
    if a.ndim == 1:
        k = z3.Int("k!aff")
        e = E()
        e.noreg += 1
        try:
            t = cast(g([k]), 'i').v
        finally:
            e.noreg -= 1
        r = resolve_ite(t, k, a.zs[0])
        if not same(r, t):
            return new('i', a.zs, lambda idx: Sc(
                'i', simp_int(z3.substitute(r, (k, idx[0])))))
    return new('i', a.zs, lambda idx: cast(g(idx), 'i'))


def scatter(sub, ax, ix, val):
    """sub[..., ix, ...] = val along axis ax (last write wins)."""
    e = E()
    n, m = sub.zs[ax], ix.zs[0]
    if ix.ndim != 1:
        raise Unsupported("scatter with a 2-D index")
    s = affine_index(ix)
    tshape = sub.zs[:ax] + (m,) + sub.zs[ax + 1:]
    if s is not None:
        inb = zor(zcmp("<=", m, iv(0)), zand(
            zcmp(">=", s, iv(0)), zcmp("<=", simp_int(zadd(s, m)), n)))
        if not e.entail(inb):
            if not e.branch(inb):
                if e.entail(s < 0):
                    raise Unsupported("negative scatter index")
                raise IndexError("index out of bounds")
        key = tuple(slice(None) for _ in range(ax)) + (
            slice(Sc('i', s), Sc('i', zadd(s, m))),)
        v = sub._view(sub._norm(key))
        # force the exact length
        v = SymArr(v.buf, v.bmap, tshape)
        v._assign(val)
        return
    vg = bget(val, tshape)
    ig = ix.snap()
    inb_fail = e.fbool("oob")
    sk = e.fint("sp")
    e.reg(sk, m)
    t = ig([sk]).v
    ok = zand(t >= 0, t < n)
    if not e.entail(z3.Implies(zand(sk >= 0, sk < m), ok)):
        e.fact(z3.Implies(inb_fail, zand(sk >= 0, sk < m, znot(ok))))
        if e.branch(inb_fail):
            raise IndexError("index out of bounds")
        e.ufact(lambda i: z3.Implies(
            zand(i >= 0, i < m), zand(ig([i]).v >= 0, ig([i]).v < n)), m)
    has = e.ffun("has", z3.IntSort(), z3.BoolSort())
    wit = e.ffun("wit", z3.IntSort(), z3.IntSort())

    def axioms(b):
        w = wit(b)
        e.fact(z3.Implies(has(b), zand(w >= 0, w < m)))
        e.reg(w, m)
        e.fact(z3.Implies(has(b), ig([w]).v == b))
        e.ufact(lambda i: z3.Implies(
            zand(i >= 0, i < m, ig([i]).v == b),
            zand(has(b), i <= wit(b))), m)
    seen = {}

    def hb(b):
        if b.get_id() not in seen:
            seen[b.get_id()] = b
            axioms(b)
        return has(b)
    sub.write(lambda idx: vg(list(idx[:ax]) + [wit(idx[ax])]
                             + list(idx[ax + 1:])),
              lambda idx: hb(idx[ax]))


def scatter_filtered(sub, ax, ix, val):
    """sub[ix] = val where ix (and val) are selections of the same base."""
    e = E()
    if sub.ndim != 1:
        raise Unsupported("filtered scatter on n-D")
    n, m = sub.zs[0], ix.n
    ig, mk = ix.bgetter(), ix.mask
    if isinstance(val, FArr):
        if not ix.same_mask(val.n, val.mask):
            raise Unsupported("different masks in scatter")
        vg = val.bgetter()
    elif is_scalar(val):
        s = lift(val)
        vg = (lambda i: s)
    else:
        raise Unsupported("scatter value")
    sk = e.fint("sp")
    e.reg(sk, m)
    t = ig(sk).v
    if not e.entail(z3.Implies(zand(sk >= 0, sk < m, mk(sk)),
                               zand(t >= 0, t < n))):
        raise Unsupported("scatter bounds not proved")
    # affine inside the mask?
    base = new('i', [m], lambda idx: ig(idx[0]))
    s = affine_index(base)
    if s is not None:
        sub.write(lambda idx: vg(simp_int(zsub(idx[0], s))),
                  lambda idx: zand(idx[0] - s >= 0, idx[0] - s < m,
                                   mk(simp_int(zsub(idx[0], s)))))
        return
    has = e.ffun("has", z3.IntSort(), z3.BoolSort())
    wit = e.ffun("wit", z3.IntSort(), z3.IntSort())
    seen = {}

    def hb(b):
        if b.get_id() not in seen:
            seen[b.get_id()] = b
            w = wit(b)
            e.reg(w, m)
            e.fact(z3.Implies(has(b), zand(
                w >= 0, w < m, mk(w), ig(w).v == b)))
            e.ufact(lambda i: z3.Implies(
                zand(i >= 0, i < m, mk(i), ig(i).v == b),
                zand(has(b), i <= wit(b))), m)
        return has(b)
    sub.write(lambda idx: vg(wit(idx[0])), lambda idx: hb(idx[0]))


def reshape(a, s):
    s = [zi(x) for x in s]
    if isinstance(a, FArr):
        a = a.dense()
    g = a.snap()
    tot = iv(1)
    for z in a.zs:
        tot = zmul(tot, z)
    if len(s) == 1:
        if a.ndim == 1:
            return a
        if a.ndim == 2:
            n1 = a.zs[1]
            c = num(n1)
            if c is None:
                # iterate with an opaque row/column split
                return new(a.k, [tot], lambda idx: g(
                    [idx[0] / n1, idx[0] % n1]))
            return new(a.k, [simp_int(tot)], lambda idx: g(
                [_idiv(idx[0], int(c)), _imod(idx[0], int(c))]))
    if a.ndim == 1 and len(s) == 2:
        n1 = s[1]
        if num(n1) == -1 or num(s[0]) == -1:
            raise Unsupported("reshape -1")
        return new(a.k, s, lambda idx: g([zadd(zmul(idx[0], n1), idx[1])]))
    if a.ndim == len(s) and all(same(x, y) for x, y in zip(a.zs, s)):
        return a
    if a.ndim == 3 and len(s) == 2 and same(a.zs[2], s[1]):
        n1 = a.zs[1]
        return new(a.k, s, lambda idx: g([idx[0] / n1, idx[0] % n1, idx[1]]))
    raise Unsupported("reshape")


def _idiv(x, c):
    n = num(x)
    return iv(int(n) // c) if n is not None else x / iv(c)


def _imod(x, c):
    n = num(x)
    return iv(int(n) % c) if n is not None else x % iv(c)


# ------------------------------------------------------------------ reductions
def _flat(a):
    """(n, getter i->Sc, mask i->Bool) of a 1-D thing."""
    if isinstance(a, FArr):
        return a.n, a.bgetter(), a.mask
    g = a.snap()
    return a.zs[0], (lambda i: g([i])), None


def anybad(n, g, m, e):
    """z3 Bool: some selected element is bad (lazily FALSE)."""
    e.noreg += 1
    try:
        b = g(e.KSUM).bad
    finally:
        e.noreg -= 1
    if z3.is_false(b):
        return FALSE
    return a_exists(n, lambda i: zand(m(i), g(i).bad) if m else g(i).bad)


def a_exists(n, p):
    e = E()
    nn = num(n)
    if nn is not None and nn <= 12:
        return zor(*[p(iv(i)) for i in range(int(nn))])
    e.noreg += 1
    try:
        cb = p(e.KSUM)
    finally:
        e.noreg -= 1
    if z3.is_false(cb):
        return FALSE
    key = ("ex", n.get_id(), cb.get_id())
    c = e.__dict__.setdefault("_excache", {})
    if key in c:
        return c[key][0]
    b = e.fbool("any")
    c[key] = (b, n, cb)
    w = e.fint("wit")
    e.reg(w, n)
    sv, e.noreg = e.noreg, 0
    e.fact(z3.Implies(b, zand(w >= 0, w < n, p(w))))
    e.noreg = sv
    e.ufact(lambda i: z3.Implies(zand(i >= 0, i < n, p(i)), b), n)
    return b


def a_sum(a, axis=None):
    e = E()
    a = as_arr(a)
    if isinstance(a, SymArr) and a.ndim > 1:
        if axis is None:
            if a.ndim == 2 and num(a.zs[0]) is not None:
                r = 0
                for i in range(int(num(a.zs[0]))):
                    r = r + a_sum(a[i])
                return r
            if a.ndim == 2 and num(a.zs[1]) is not None:
                return a_sum(a.T)
            raise Unsupported("full sum of a symbolic 2-D array")
        ax = axis % a.ndim
        g = a.snap()
        n = a.zs[ax]
        sh = a.zs[:ax] + a.zs[ax + 1:]
        if a.k == 'b':
            return new('i', sh, lambda idx: Sc('i', e.mkcount(
                n, lambda i: g(list(idx[:ax]) + [i] + list(idx[ax:])).v)))
        kk = a.k

        def fn(idx):
            def body(i):
                return toreal(g(list(idx[:ax]) + [i] + list(idx[ax:])).v)
            v = e.mksum(n, body)
            return Sc('f', v) if kk == 'f' else Sc('i', z3.ToInt(v))
        return new(kk, sh, fn)
    n, g, m = _flat(a)
    if a.k == 'b':
        return unlift(Sc('i', e.mkcount(n, (
            lambda i: zand(m(i), g(i).v)) if m else (lambda i: g(i).v))))
    bad = anybad(n, g, m, e)

    def body(i):
        v = toreal(g(i).v)
        return zite(m(i), v, R0) if m else v
    v = e.mksum(n, body)
    if a.k == 'i':
        if v.decl().kind() == z3.Z3_OP_TO_REAL:
            return unlift(Sc('i', v.arg(0)))
        c = num(v)
        if c is not None:
            return int(c)
        iv_ = z3.ToInt(v)
        e.fact(z3.ToReal(iv_) == v)
        return Sc('i', iv_)
    return Sc('f', v, bad)


def a_mean(a, axis=None):
    a = as_arr(a)
    if isinstance(a, SymArr) and a.ndim > 1:
        if axis is None:
            raise Unsupported("full mean")
        ax = axis % a.ndim
        return a_sum(a, axis) / Sc('i', a.zs[ax])
    s = a_sum(a)
    return s / (a.size if not isinstance(a.size, int) else float(a.size))


def a_dot(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 1 and b.ndim == 1:
        if isinstance(a, SymArr) and isinstance(b, SymArr):
            need_eq(a.zs[0], b.zs[0], "shapes not aligned")
        return a_sum(a * b)
    if isinstance(a, SymArr) and a.ndim == 2 and b.ndim == 1:
        need_eq(a.zs[1], b.zs[0], "shapes not aligned")
        ga, gb = a.snap(), b.snap()
        n = a.zs[1]
        e = E()
        return new('f', [a.zs[0]], lambda idx: Sc('f', e.mksum(
            n, lambda i: toreal(arith_s("*", ga([idx[0], i]),
                                        gb([i])).v))))
    return a_matmul(a, b)


def a_matmul(a, b):
    if a.ndim == 1 or b.ndim == 1:
        return a_dot(a, b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("matmul")
    need_eq(a.zs[1], b.zs[0], "matmul shapes")
    ga, gb = a.snap(), b.snap()
    n = a.zs[1]
    e = E()
    return new('f', [a.zs[0], b.zs[1]], lambda idx: Sc('f', e.mksum(
        n, lambda i: zmul(toreal(ga([idx[0], i]).v),
                          toreal(gb([i, idx[1]]).v)))))


def a_any(a, axis=None):
    a = as_arr(a)
    if isinstance(a, SymArr) and a.ndim == 2 and axis is not None:
        ax = axis % 2
        g = a.snap()
        n = a.zs[ax]
        return new('b', [a.zs[1 - ax]], lambda idx: Sc('b', a_exists(
            n, lambda i: cast(g([i, idx[0]] if ax == 0 else [idx[0], i]),
                              'b').v)))
    if isinstance(a, SymArr) and a.ndim > 1:
        raise Unsupported("any over n-D")
    if isinstance(a, SymArr) and a.ndim == 0:
        return Sc('b', cast(a.get([]), 'b').v)
    n, g, m = _flat(a)
    return Sc('b', a_exists(n, lambda i: zand(
        m(i) if m else TRUE, cast(g(i), 'b').v)))


def a_all(a, axis=None):
    a = as_arr(a)
    if isinstance(a, SymArr) and a.ndim == 0:
        return Sc('b', cast(a.get([]), 'b').v)
    if isinstance(a, SymArr) and a.ndim > 1:
        if axis is None:
            raise Unsupported("all over n-D")
        return ~a_any(~a, axis)
    n, g, m = _flat(a)
    return Sc('b', znot(a_exists(n, lambda i: zand(
        m(i) if m else TRUE, znot(cast(g(i), 'b').v)))))


def a_minmax(a, mx):
    a = as_arr(a)
    e = E()
    if isinstance(a, SymArr) and a.ndim != 1:
        raise Unsupported("min/max n-D")
    n, g, m = _flat(a)
    nn = num(n)
    if nn is not None and m is None:
        if nn == 0:
            raise ValueError("zero-size array to reduction operation")
        cur = g(iv(0))
        for i in range(1, int(nn)):
            x = g(iv(i))
            # fork keeps the term linear for the normaliser
            c = zcmp("<", cur.v, x.v) if mx else zcmp("<", x.v, cur.v)
            if e.rec is None and a.k != 's':
                if e.branch(c):
                    cur = x
            else:
                cur = s_ite(c, x, cur)
        return unlift(cur)
    cntpos = a_exists(n, m if m else (lambda i: TRUE))
    if m is None:
        cntpos = n > 0
    if not e.branch(cntpos):
        raise ValueError("zero-size array to reduction operation")
    w = e.fint("arg")
    e.reg(w, n)
    v = g(w)
    e.fact(zand(w >= 0, w < n, m(w) if m else TRUE))
    e.ufact(lambda i: z3.Implies(
        zand(i >= 0, i < n, m(i) if m else TRUE),
        (zcmp("<=", g(i).v, v.v) if mx else zcmp(">=", g(i).v, v.v))), n)
    return v


def a_argm(a, mx):
    a = as_arr(a)
    e = E()
    if isinstance(a, FArr):
        a = a.dense()
    if a.ndim != 1:
        raise Unsupported("argmin n-D")
    n = a.zs[0]
    g = a.snap()
    if not e.branch(zcmp(">", n, iv(0))):
        raise ValueError("attempt to get argmin of an empty sequence")
    w = e.fint("argm")
    e.reg(w, n)
    v = g([w]).v
    e.fact(zand(w >= 0, w < n))

    def uf(i):
        x = g([i]).v
        le = zcmp("<=", x, v) if mx else zcmp("<=", v, x)
        lt = zcmp("<", x, v) if mx else zcmp("<", v, x)
        return z3.Implies(zand(i >= 0, i < n),
                          zand(le, z3.Implies(i < w, lt)))
    e.ufact(uf, n)
    return Sc('i', w)
