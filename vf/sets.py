"""Order- and set-like numpy operations on symbolic arrays.

Concrete (small) lengths are handled exactly by comparing elements (paths
split); symbolic lengths by the defining axioms of the operation."""
import z3

from .terms import (
    Unsupported, TRUE, FALSE, iv, num, same, zand, zor, znot, zite, zadd,
    zsub, toreal)
from .engine import E, Sc, zcmp, lift, s_ite
from . import arr as A

IS = z3.IntSort()
SMALL = 6


def pairwise(e, fn, n):
    """Universal fact over ordered pairs of index terms: fn(i, j)."""
    seen = []

    def f(t):
        cs = []
        for s in seen:
            cs.append(fn(s, t))
            cs.append(fn(t, s))
        seen.append(t)
        return zand(*cs)
    e.ufact(f, n)


def rng(i, n):
    return zand(zcmp("<=", iv(0), i), zcmp("<", i, n))


def enum_of_mask(n, mask, cnt):
    """k -> index of the k-th True (increasing)."""
    e = E()
    e.noreg += 1
    try:
        cb = mask(e.KSUM)
    finally:
        e.noreg -= 1
    c = e.__dict__.setdefault("_enumcache", {})
    key = (n.get_id(), cb.get_id())
    if key in c:
        return c[key][0]
    if z3.is_true(cb):
        en = (lambda k: k)
        c[key] = (en, n, cb)
        return en
    f = e.ffun("enum", IS, IS)
    r = e.ffun("rank", IS, IS)

    trig = e.trigger(None, lambda i, j: z3.Implies(
        zand(iv(0) <= i, i < j, j < cnt), f(i) < f(j)))

    def upos(t):
        ft = f(t)
        e.reg(ft, n)
        return z3.Implies(rng(t, cnt), zand(
            rng(ft, n), mask(ft), r(ft) == t))

    def ubase(t):
        rt = r(t)
        if e.depth <= 1:
            trig(rt)
        e.reg(rt, cnt)
        return z3.Implies(zand(rng(t, n), mask(t)),
                          zand(rng(rt, cnt), f(rt) == t))
    e.ufact(upos, cnt)
    e.ufact(ubase, n)

    def en(k):
        trig(k)
        return f(k)
    c[key] = (en, n, cb)
    return en


def le(x, y):
    return zcmp("<=", x.v, y.v)


def lt(x, y):
    return zcmp("<", x.v, y.v)


def lexlt(xs, ys):
    """Lexicographic strict order of key tuples."""
    r = FALSE
    for x, y in reversed(list(zip(xs, ys))):
        r = zor(lt(x, y), zand(zcmp("==", x.v, y.v), r))
    return r


def lexle(xs, ys):
    return znot(lexlt(ys, xs))


def argsort(a, keys=None):
    """Permutation array sorting a (or lexicographically by keys)."""
    e = E()
    cols = keys or [a]
    n = cols[0].zs[0]
    gs = [c.snap() for c in cols]

    def kv(i):
        return [g([i]) for g in gs]
    nn = num(n)
    if nn is not None and nn <= SMALL:
        order = []
        for i in range(int(nn)):
            ki = kv(iv(i))
            p = len(order)
            while p > 0 and e.branch(lexlt(ki, kv(iv(order[p - 1])))):
                p -= 1
            order.insert(p, i)
        if not order:
            return A.new('i', [0], lambda idx: Sc('i', iv(0)))
        return A.stack_list(order)
    e.noreg += 1
    try:
        kk = tuple(x.v.get_id() for x in kv(e.KSUM))
    finally:
        e.noreg -= 1
    c = e.__dict__.setdefault("_sortcache", {})
    key = (n.get_id(), kk)
    if key in c:
        return c[key]
    p, q = e.ffun("perm", IS, IS), e.ffun("iperm", IS, IS)
    trig = e.trigger(None, lambda i, j: z3.Implies(
        zand(iv(0) <= i, i < j, j < n), lexle(kv(p(i)), kv(p(j)))))

    def uf(t):
        e.reg(p(t), n)
        e.reg(q(t), n)
        if e.depth <= 1:
            trig(q(t))
        return z3.Implies(rng(t, n), zand(
            rng(p(t), n), q(p(t)) == t, rng(q(t), n), p(q(t)) == t))
    e.ufact(uf, n)

    def pf(idx):
        trig(idx[0])
        return Sc('i', p(idx[0]))
    c[key] = A.new('i', [n], pf)
    return c[key]


def sort_inplace(a):
    p = argsort(a)
    b = A.gather(a.copy(), p)
    a._assign(b)


def is_sorted(a):
    e = E()
    n = a.zs[0]
    nn = num(n)
    g = a.snap()
    if nn is not None and nn <= SMALL:
        return e.entail(zand(*[
            le(g([iv(i)]), g([iv(i + 1)])) for i in range(int(nn) - 1)]))
    c = e.__dict__.setdefault("_srtcache", {})
    e.noreg += 1
    try:
        kv = g([e.KSUM]).v
    finally:
        e.noreg -= 1
    key = (n.get_id(), kv.get_id())
    if key in c:
        return True
    i, j = e.fint("so"), e.fint("so")
    e.reg(i, n)
    e.reg(j, n)
    r = e.entail(z3.Implies(
        zand(iv(0) <= i, i < j, j < n), le(g([i]), g([j]))), full=True)
    if r:
        c[key] = (n, kv)
    return r


def searchsorted(a, v, side="left"):
    e = E()
    a = A.as_arr(a)
    if isinstance(a, A.FArr):
        a = a.dense()
    n = a.zs[0]
    g = a.snap()
    srt = is_sorted(a)
    if not srt:
        e.havoc = True
    nn = num(n)

    def one(x):
        x = lift(x)

        def before(i):
            y = g([i])
            r = lt(y, x) if side == "left" else le(y, x)
            return zor(x.bad, r)
        if nn is not None and nn <= 14 and srt:
            r = iv(0)
            for i in range(int(nn)):
                r = zadd(r, zite(before(iv(i)), iv(1), iv(0)))
            return Sc('i', r)
        c = e.__dict__.setdefault("_sscache", {})
        e.noreg += 1
        try:
            key = (n.get_id(), side, g([e.KSUM]).v.get_id(), x.v.get_id())
        finally:
            e.noreg -= 1
        if key in c:
            return c[key][0]
        r = e.fint("ss")
        res = Sc('i', r)
        c[key] = (res, x)
        e.fact(zand(r >= 0, r <= n))
        if srt:
            if not getattr(e, "ss_quiet", False):
                e.reg(r, n)
                e.reg(zsub(r, iv(1)), n)
            e.ufact(lambda i: z3.Implies(
                rng(i, n), before(i) == (i < r)), n)
        return res
    if A.is_scalar(v):
        return A.unlift(one(v))
    v = A.as_arr(v)
    if isinstance(v, A.FArr):
        gv = v.bgetter()
        return A.FArr(v.n, v.mask, lambda i: one(gv(i)), 'i')
    gv = v.snap()
    return A.new('i', v.zs, lambda idx: one(gv(idx)))


def isin(a, b, invert=False):
    a, b = A.as_arr(a), A.as_arr(b)
    nb = b.n if isinstance(b, A.FArr) else b.zs[0]
    if isinstance(b, A.FArr):
        gb0, mb = b.bgetter(), b.mask
    else:
        s = b.snap()
        gb0, mb = (lambda j: s([j])), (lambda j: TRUE)

    def f(x):
        r = A.a_exists(nb, lambda j: zand(mb(j), zcmp("==", x.v, gb0(j).v)))
        return Sc('b', znot(r) if invert else r)
    return A.unop(a, f, 'b')


def unique(a, return_index=False, return_counts=False, return_inverse=False,
           keys=None):
    """Sorted distinct values (keys: columns, compared lexicographically; only
    sizes and indices are available then)."""
    e = E()
    if keys is None:
        a = A.as_arr(a)
        if isinstance(a, A.FArr):
            a = a.dense()
        if a.ndim != 1:
            raise Unsupported("unique of n-D")
        keys = [a]
    k0 = keys[0].k
    n = keys[0].zs[0]
    gs = [c.snap() for c in keys]
    g = gs[0]

    def kv(i):
        return [q([i]) for q in gs]

    def eqk(x, y):
        return zand(*[zcmp("==", p.v, q.v) for p, q in zip(x, y)])
    nn = num(n)
    if nn is not None and nn <= SMALL:
        vals = []          # (value, first index, [members])
        for i in range(int(nn)):
            x = kv(iv(i))
            p = 0
            while p < len(vals):
                if e.branch(eqk(x, vals[p][0])):
                    vals[p][2].append(i)
                    break
                if e.branch(lexlt(x, vals[p][0])):
                    vals.insert(p, [x, i, [i]])
                    break
                p += 1
            else:
                vals.append([x, i, [i]])
        u = _lst([v[0][0] for v in vals], k0)
        out = [u]
        if return_index:
            out.append(_lst([v[1] for v in vals], 'i'))
        if return_inverse:
            inv = [None] * int(nn)
            for j, v in enumerate(vals):
                for i in v[2]:
                    inv[i] = j
            out.append(_lst(inv, 'i'))
        if return_counts:
            out.append(_lst([len(v[2]) for v in vals], 'i'))
        return out[0] if len(out) == 1 else tuple(out)
    c = e.__dict__.setdefault("_uniqcache", {})
    e.noreg += 1
    try:
        key = (n.get_id(), tuple(x.v.get_id() for x in kv(e.KSUM)))
    finally:
        e.noreg -= 1
    if key in c:
        m, ixf, inv = c[key]
    else:
        m = e.fint("nuniq")
        ix, inv = e.ffun("uidx", IS, IS), e.ffun("uinv", IS, IS)
        e.fact(zand(m >= 0, m <= n, (m == 0) == (n <= 0)))
        # m == n iff all rows are distinct (a pair of equal rows otherwise)
        d1, d2 = e.fint("dup"), e.fint("dup")
        e.reg(d1, n)
        e.reg(d2, n)
        e.fact(zor(m == n, zand(
            d1 >= 0, d1 < d2, d2 < n, eqk(kv(d1), kv(d2)))))
        trm = e.trigger(None, lambda i, j: z3.Implies(
            zand(iv(0) <= i, i < j, j < m), lexlt(kv(ix(i)), kv(ix(j)))))
        # equal values <=> same class
        tre = e.trigger(None, lambda i, j: z3.Implies(
            zand(rng(i, n), rng(j, n), eqk(kv(i), kv(j))),
            zand(inv(i) == inv(j), z3.Implies(m == n, i == j))))

        def ucls(t):
            e.reg(ix(t), n)
            return z3.Implies(rng(t, m), zand(
                rng(ix(t), n), inv(ix(t)) == t))

        def uel(t):
            e.reg(inv(t), m)
            if e.depth <= 1:
                tre(t)
                trm(inv(t))
            return z3.Implies(rng(t, n), zand(
                rng(inv(t), m), eqk(kv(ix(inv(t))), kv(t)),
                ix(inv(t)) <= t))
        e.ufact(ucls, m)
        e.ufact(uel, n)

        def ixf(t):
            trm(t)
            return ix(t)
        c[key] = (m, ixf, inv)
    out = [A.new(k0, [m], lambda idx: g([ixf(idx[0])]))]
    if return_index:
        out.append(A.new('i', [m], lambda idx: Sc('i', ixf(idx[0]))))
    if return_inverse:
        out.append(A.new('i', [n], lambda idx: Sc('i', inv(idx[0]))))
    if return_counts:
        out.append(A.new('i', [m], lambda idx: Sc('i', e.mkcount(
            n, lambda i: eqk(kv(i), kv(ixf(idx[0])))))))
    return out[0] if len(out) == 1 else tuple(out)


def _lst(x, k):
    if not x:
        return A.new(k, [0], lambda idx: A.zero_of(k))
    return A.stack_list(x)


def intersect1d(a, b, assume_unique=False, return_indices=False):
    """Sorted common values; indices of first occurrences in a and b."""
    e = E()
    a, b = A.as_arr(a), A.as_arr(b)
    if isinstance(a, A.FArr):
        a = a.dense()
    if isinstance(b, A.FArr):
        b = b.dense()
    na, nb = a.zs[0], b.zs[0]
    ga, gb = a.snap(), b.snap()
    ca, cb = num(na), num(nb)
    if ca is not None and cb is not None and ca <= SMALL and cb <= SMALL:
        ua, ia = unique(a, return_index=True)
        ub, ib = unique(b, return_index=True)
        vs, ja, jb = [], [], []
        for p in range(len(ua)):
            for q in range(len(ub)):
                if e.branch(zcmp("==", lift(ua[p]).v, lift(ub[q]).v)):
                    vs.append(ua[p])
                    ja.append(ia[p])
                    jb.append(ib[q])
        out = _lst(vs, a.k), _lst(ja, 'i'), _lst(jb, 'i')
        return out if return_indices else out[0]
    m = e.fint("ncomm")
    fa, fb = e.ffun("ca", IS, IS), e.ffun("cb", IS, IS)
    cl = e.ffun("ccls", IS, IS)
    e.fact(zand(m >= 0, m <= na, m <= nb))

    trm = e.trigger(None, lambda i, j: z3.Implies(
        zand(iv(0) <= i, i < j, j < m), lt(ga([fa(i)]), ga([fa(j)]))))

    def uf(t):
        e.reg(fa(t), na)
        e.reg(fb(t), nb)
        return z3.Implies(rng(t, m), zand(
            rng(fa(t), na), rng(fb(t), nb),
            zcmp("==", ga([fa(t)]).v, gb([fb(t)]).v)))
    e.ufact(uf, m)
    # completeness: a[i] == b[j]  =>  their class is listed, first
    # occurrences
    sa, sb = [], []

    def comp(i, j):
        return z3.Implies(
            zand(rng(i, na), rng(j, nb), zcmp("==", ga([i]).v, gb([j]).v)),
            zand(rng(cl(i), m), zcmp("==", ga([fa(cl(i))]).v, ga([i]).v),
                 fa(cl(i)) <= i, fb(cl(i)) <= j))

    def ua(i):
        trm(cl(i))
        e.reg(cl(i), m)
        sa.append(i)
        return zand(*[comp(i, j) for j in sb])

    def ub(j):
        sb.append(j)
        return zand(*[comp(i, j) for i in sa])
    e.ufact(ua, na)
    e.ufact(ub, nb)

    def tk(idx):
        trm(idx[0])
        return idx[0]
    v = A.new(a.k, [m], lambda idx: ga([fa(tk(idx))]))
    if not return_indices:
        return v
    return (v, A.new('i', [m], lambda idx: Sc('i', fa(idx[0]))),
            A.new('i', [m], lambda idx: Sc('i', fb(idx[0]))))
