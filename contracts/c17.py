"""C17: subsampled mean and covariance are the jackknife estimates."""
import itertools
from vf.run import scenario
from contracts.common import *

ASSUME = ["the denominator 1 - w of a delete-one mean is taken as 1 - w + "
          "machine epsilon, as in the code"]
NOTE = ("2 or 3 subsamples (2 for the plain mean) and at most 4 measurements in the symbolic run; "
        "any number of data points, any values and weights")


def _fill(cx, ss, ns, nset, nd, p="", nadd=None, istart=0):
    """Measurements added one by one; returns the sums per subsample."""
    nadd = nadd or cx.choice(p + "nadd", [ns, ns + 1] if cx.symbolic
                             else [1, 2, ns, ns + 2])
    X, W = [0.] * ns, [0.] * ns
    for k in range(nadd):
        x = cx.array(f"{p}x{k}", (nset, nd))
        w = cx.array(f"{p}w{k}", nd, lo=0, pool=IVPOS)
        i = (istart + k) % ns
        X[i], W[i] = X[i] + x, W[i] + w
        ss.add_measurement(x.copy(), w.copy())
    return X, W


def _mk(cx, MT, istart=0, sizes=(2, 3)):
    ns = cx.choice("ns", sizes) if cx.symbolic else cx.choice(
        "ns", [2, 3, 5])
    nset = cx.choice("nset", [1, 2])
    nd = cx.length("nd", 2, conc=(2, 5))
    return ns, nset, nd, MT.SubsampleCov((nset, nd), ns, istart)


def _at(a, *i):
    return a[i] if hasattr(a, "shape") else a


def _norm(cx, ss, X, W, ns, nset, nd):
    """Normalised measurements and weights (lemma for what follows)."""
    def wrule(i):
        def f(p):
            tot = sum(_at(w, p) for w in W)
            g = ss.all_weights[i, 0, p]
            return cx.ite(tot > 0, cx.eq(g * tot, _at(W[i], p)),
                          cx.eq(g, 0.))
        return f

    def xrule(i):
        def f(j, p):
            w = _at(W[i], p)
            g = ss.all_measurements[i, j, p]
            return cx.Implies(w > 0, cx.eq(g * w, _at(X[i], j, p)))
        return f
    def share(i, pos):
        def f(j, p):
            tot = sum(_at(w, p) for w in W)
            g = ss.all_measurements[i, j, p] * ss.all_weights[i, 0, p] * tot
            if pos:
                return cx.Implies(_at(W[i], p) > 0,
                                  cx.eq(g, _at(X[i], j, p)))
            return cx.Implies(cx.eq(_at(W[i], p), 0.), cx.eq(g, 0.))
        return f
    for i in range(ns):
        cx.forall("weights sum to one", nd, wrule(i))
        cx.forall("subsample averages", (nset, nd), xrule(i))
    for i in range(ns):
        for pos in True, False:
            cx.forall("share of the mean", (nset, nd), share(i, pos))


def _mean(cx, got, X, W, ns, nset, nd):
    def rule(pos):
        def f(j, p):
            tot = sum(_at(w, p) for w in W)
            sx = sum((_at(X[i], j, p) for i in range(ns) if pos[i]), 0.)
            pre = cx.And(*[_at(W[i], p) > 0 if pos[i]
                           else cx.eq(_at(W[i], p), 0.) for i in range(ns)])
            return cx.Implies(pre, cx.eq(got[j, p] * tot, sx) if any(pos)
                              else cx.eq(got[j, p], 0.))
        return f
    cx.check("mean shape", cx.And(cx.eq(got.shape[0], nset),
                                  cx.eq(got.shape[1], nd)))
    for pos in itertools.product([True, False], repeat=ns):
        cx.forall("mean", (nset, nd), rule(pos))


def _jack(cx, mean0, xm, wm, ns, eps):
    """Delete-one means (functions of set and point)."""
    def jk(i, j, p):
        return (mean0[j, p] - xm[i, j, p] * wm[i, 0, p]) / (
            1 - wm[i, 0, p] + eps)

    def dev(j, p):
        js = [jk(i, j, p) for i in range(ns)]
        mj = sum(js) / ns
        return [x - mj for x in js], mj
    return dev


LEVEL = "other"     # every contract carries a bound (see scenarios)


@scenario("C17", ["SubsampleCov.__init__", "SubsampleCov.add_measurement",
                  "SubsampleCov._normalize", "SubsampleCov.get_mean"],
          quick_s=120, bound=NOTE)
def average(cx):
    """The mean is the weighted average of all the measurements."""
    MT = cx.load("qsonic.mathtools")
    ns, nset, nd, ss = _mk(cx, MT, 0, (2,))
    X, W = _fill(cx, ss, ns, nset, nd)
    r = ss.get_mean()
    _norm(cx, ss, X, W, ns, nset, nd)
    _mean(cx, r, X, W, ns, nset, nd)
    again = ss.get_mean()
    cx.forall("asking twice", (nset, nd), lambda j, p: cx.eq(
        again[j, p], r[j, p]))
    r, ex = cx.call(ss.add_measurement, cx.np().zeros((nset, nd)),
                    cx.np().zeros(nd))
    cx.check_raises("no measurement after the estimates", ex, RuntimeError)


ORDERS = [("mean", "var"), ("mean", "cov"), ("var", "cov"), ("cov", "var"),
          ("var", "var"), ("cov", "cov"), ("cov",), ("var",)]


@scenario("C17", ["SubsampleCov.get_mean", "SubsampleCov._get_xdiff",
                  "SubsampleCov.get_mean_n_var",
                  "SubsampleCov.get_mean_n_cov"], quick_s=300, bound=NOTE)
def estimates(cx):
    """Mean, variance and covariance, in every order of the calls.

    Symbolically the object is taken as `average` proves it to be once the
    measurements are normalised: any averages, any weights in [0, 1]."""
    import numpy
    eps = float(numpy.finfo(float).eps)
    MT = cx.load("qsonic.mathtools")
    order = cx.choice("order", ORDERS)
    bias = cx.flag("bias")
    ns, nset, nd, ss = _mk(cx, MT)
    if cx.symbolic:
        ss.all_measurements = cx.array("avg", (ns, nset, nd))
        ss.all_weights = cx.array("wt", (ns, 1, nd), lo=0, hi=1)
        ss._is_normalized = True
    else:
        _fill(cx, ss, ns, nset, nd)
        ss._normalize()
    xm, wm = ss.all_measurements.copy(), ss.all_weights.copy()
    mean0 = cx.np().zeros((nset, nd))
    for i in range(ns):
        mean0 = mean0 + xm[i] * wm[i]
    dev = _jack(cx, mean0, xm, wm, ns, eps)
    n1 = ns - 1

    def close(a, b, sc=0.):
        if cx.symbolic:
            return cx.eq(a, b)
        return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b) + abs(sc))
    for what in order:
        if what == "mean":
            m = ss.get_mean()
            cx.forall("plain mean", (nset, nd), lambda j, p: close(
                m[j, p], mean0[j, p]))
            continue
        if what == "var":
            m, v = ss.get_mean_n_var(bias_correct=bias)
        else:
            m, cov = ss.get_mean_n_cov(bias_correct=bias)
        cx.forall("mean (bias corrected)" if bias else "reported mean",
                  (nset, nd), lambda j, p: close(
                      m[j, p], mean0[j, p] - (
                          (ns - 1) * (dev(j, p)[1] - mean0[j, p])
                          if bias else 0.)))
        if what == "var":
            cx.forall("variance", (nset, nd), lambda j, p: close(
                v[j, p], sum(d * d for d in dev(j, p)[0]) * n1 / ns))
        else:
            cx.check("one covariance for each set", len(cov) == nset)
            for j in range(nset):
                cx.check("covariance shape", cx.And(
                    cx.eq(cov[j].shape[0], nd), cx.eq(cov[j].shape[1], nd)))
                cx.forall("covariance", (nd, nd), lambda p, q: close(
                    cov[j][p, q], sum(a * b for a, b in zip(
                        dev(j, p)[0], dev(j, q)[0])) * n1 / ns))
    cx.forall("averages are kept", (nset, nd), lambda j, p: cx.And(
        *[cx.And(close(ss.all_measurements[i, j, p], xm[i, j, p]),
                 close(ss.all_weights[i, 0, p], wm[i, 0, p]))
          for i in range(ns)]))


@scenario("C17", ["SubsampleCov.add_measurement", "SubsampleCov.reset"],
          quick_s=120, bound=NOTE)
def accumulate(cx):
    """A measurement changes only its own subsample; reset clears all."""
    MT = cx.load("qsonic.mathtools")
    istart = cx.choice("istart", [0, 1, 4])
    ns, nset, nd, ss = _mk(cx, MT, istart)
    used = cx.choice("used", [None, "add", "var", "cov"])
    if used:
        _fill(cx, ss, ns, nset, nd, "old", nadd=1, istart=istart)
        if used == "var":
            ss.get_mean_n_var()
        elif used == "cov":
            ss.get_mean_n_cov()
        ss.reset()
        cx.check("no estimates after reset", ss.mean is None
                 and ss.variance is None and ss.covariance is None)
    X, W = _fill(cx, ss, ns, nset, nd, istart=istart)
    for i in range(ns):
        cx.forall("sums of the subsample", (nset, nd), lambda j, p: cx.And(
            cx.eq(ss.all_measurements[i, j, p], _at(X[i], j, p)),
            cx.eq(ss.all_weights[i, 0, p], _at(W[i], p))))


@scenario("C17", ["SubsampleCov.get_mean_n_cov",
                  "SubsampleCov._get_block_covariance"], quick_s=120,
          bound=NOTE)
def blocks(cx):
    """Block covariances are the diagonal blocks of the covariance."""
    MT = cx.load("qsonic.mathtools")
    ns, nset, bd, nb = cx.choice("cfg", [(2, 1, 2, 2), (3, 2, 1, 3),
                                         (2, 2, 3, 1)])
    nd = bd * nb
    a, b = MT.SubsampleCov((nset, nd), ns), MT.SubsampleCov((nset, nd), ns)
    for k in range(ns):
        x = cx.array(f"x{k}", (nset, nd))
        w = cx.array(f"w{k}", nd, gt=0, pool=[1., 2., 0.5])
        a.add_measurement(x.copy(), w.copy())
        b.add_measurement(x.copy(), w.copy())
    idx = cx.choice("indices", [None, [0]])
    m1, c1 = a.get_mean_n_cov()
    m2, c2 = b.get_mean_n_cov(indices=idx, blockdim=bd)
    for j in range(nset):
        if idx is not None and j not in idx:
            cx.check("only the requested sets", c2[j] is None)
            continue
        cx.check("shape", cx.And(
            *[cx.eq(s, t) for s, t in zip(c2[j].shape, (nb, bd, bd))]))
        for k in range(nb):
            for p in range(bd):
                for q in range(bd):
                    cx.check("diagonal block", cx.eq(
                        c2[j][k, p, q], c1[j][k * bd + p, k * bd + q]))
    r, ex = cx.call(b.get_mean_n_cov, blockdim=nd + 1)
    cx.check_raises("block size must divide", ex, AssertionError)


@scenario("C17", ["SubsampleCov.allreduce"], quick_s=120, bound=NOTE)
def ranks(cx):
    """allreduce: each subsample is the sum over ranks."""
    size = 2
    nset, ns = 1, 2
    nd = cx.length("nd", 2, conc=(2, 4))
    data = [(cx.array(f"x{r}", (nset, nd)), cx.array(f"w{r}", nd, lo=0))
            for r in range(size)]

    def body(comm, load):
        MT = load("qsonic.mathtools")
        r = comm.Get_rank()
        ss = MT.SubsampleCov((nset, nd), ns, istart=(r * ns) // size)
        ss.add_measurement(data[r][0].copy(), data[r][1].copy())
        MPI = load("qsonic.picca_continuum").MPI
        ss.allreduce(comm, MPI.IN_PLACE)
        return ss
    for ss, ex in cx.world(size, body):
        cx.no_exc("no failure", ex)
        for i in range(ns):
            cx.forall("sum over ranks", (nset, nd), lambda j, p: cx.And(
                cx.eq(ss.all_measurements[i, j, p], data[i][0][j, p]),
                cx.eq(ss.all_weights[i, 0, p], data[i][1][p])))


@scenario("C17", ["block_covariance_of_square"], quick_s=60)
def square(cx):
    """Covariance of the squares, block by block."""
    MT = cx.load("qsonic.mathtools")
    nb, nd = cx.choice("cfg", [(1, 2), (2, 2), (3, 1), (2, 3)])
    m, v = cx.array("m", nb * nd), cx.array("v", nb * nd, lo=0)
    c = cx.array("c", (nb, nd, nd))
    c0 = c.copy()
    r = MT.block_covariance_of_square(m, v, c)
    for k in range(nb):
        for i in range(nd):
            for j in range(nd):
                a, b = k * nd + i, k * nd + j
                cx.check("covariance of squares", cx.eq(
                    r[k, i, j], v[a] * v[b] + c0[k, i, j]**2
                    + 2 * c0[k, i, j] * m[a] * m[b] + v[a] * m[b]**2
                    + v[b] * m[a]**2))
                cx.check("input unchanged", cx.eq(c[k, i, j], c0[k, i, j]))
