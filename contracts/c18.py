"""C18: interpolators pass through their table and are smooth."""
from vf.run import scenario
from vf.terms import Unsupported
from contracts.common import *

ASSUME = ["real arithmetic; the not-a-knot solution is stated to 1e-9 of the "
          "largest second difference (the code's constants are rounded)"]


def _table(cx, tag="", n=None, lo=2):
    n = n or cx.length(tag + "n", lo, conc=(lo, 8))
    x0 = cx.real(tag + "x0", pool=[0., -2., 3600.])
    dx = cx.real(tag + "dx", gt=0, pool=[1., 0.5, 0.8])
    return n, x0, dx, cx.array(tag + "fp", n)


def _query(cx, x0, dx, n):
    """One query point and the segment it belongs to (t in units of dx)."""
    where = cx.choice("where", ["below", "segment", "end", "above"])
    if where == "below":
        k, t = 0, cx.real("t", lt=0, pool=[-0.5, -2.])
    elif where == "above":
        k, t = n - 2, cx.real("t", gt=1, pool=[1.25, 3.])
    else:
        k = cx.int("k", 0, n - 2, conc=(0, 6))
        t = 1. if where == "end" else cx.real(
            "t", lo=0, lt=1, pool=[0., 0.25, 0.5, 0.875])
    return k, t


def _eq(cx, a, b):
    return cx.eq(a, b, 1e-6)


@scenario("C18", ["_fast_eval_interp1d_lin", "FastLinear1DInterp.__init__",
                  "FastLinear1DInterp.__call__"], quick_s=60)
def linear(cx):
    """Straight line between the nodes, continued outside the table."""
    MT = cx.load("qsonic.mathtools")
    np = cx.np()
    n, x0, dx, fp = _table(cx)
    f0 = fp.copy()
    k, t = _query(cx, x0, dx, n)
    copy = cx.flag("copy")
    I = MT.FastLinear1DInterp(x0, dx, fp, copy=copy)
    if copy:
        fp *= 2
    x = np.array([x0 + (k + t) * dx, x0 + k * dx])
    y = I(x)
    cx.check("one value for each point", cx.eq(y.shape[0], 2))
    cx.check("node", _eq(cx, y[1], f0[k]))
    cx.check("segment", _eq(
        cx, y[0], f0[k] * (1 - t) + f0[k + 1] * t))


@scenario("C18", ["_fast_eval_interp1d_lin"], quick_s=60)
def linear_array(cx):
    """Every point of any array of points, in order."""
    MT = cx.load("qsonic.mathtools")
    n, x0, dx, fp = _table(cx)
    m = cx.length("m", 1, conc=(1, 6))
    off = cx.array("off", m, kind="i", lo=0, hi=n - 1)
    x = x0 + off * dx
    y = MT.FastLinear1DInterp(x0, dx, fp)(x)
    cx.check("size", cx.eq(y.shape[0], m))
    cx.forall("nodes", m, lambda j: _eq(cx, y[j], fp[off[j]]))


@scenario("C18", ["_fast_eval_interp1d_cubic"], quick_s=100)
def cubic_value(cx):
    """Node values, node second derivatives and a cubic in between."""
    MT = cx.load("qsonic.mathtools")
    np = cx.np()
    n, x0, dx, fp = _table(cx)
    y2 = cx.array("y2", n)
    k, t = _query(cx, x0, dx, n)
    x = np.array([x0 + (k + t) * dx, x0 + k * dx])
    y = MT._fast_eval_interp1d_cubic(x, x0, dx, fp, y2)
    cx.check("node", _eq(cx, y[1], fp[k]))
    a = 1 - t
    if cx.symbolic:
        # lemma for the solver: the segment of the point
        ii = np.clip((x - x0) / dx, 0, n - 1 - 1e-8).astype(int)
        dd = (x - x0) / dx - ii
        cx.check("lemma: segment", cx.Or(
            cx.eq(ii[0], k), cx.And(cx.eq(ii[0], k + 1), cx.eq(t, 1.))))
        if not isinstance(t, float):
            cx.check("lemma: position", cx.eq(dd[0], t))
    val = a * fp[k] + t * fp[k + 1] + ((a + 1) * y2[k] + (
        t + 1) * y2[k + 1]) * (-a * t * dx**2 / 6)
    cx.check("cubic, factored", _eq(cx, y[0], val))
    cx.check("cubic", _eq(cx, y[0], a * fp[k] + t * fp[k + 1] + (
        (a**3 - a) * y2[k] + (t**3 - t) * y2[k + 1]) * (dx * dx / 6)))


@scenario("C18", ["_spline_cubic_natural"], quick_s=100,
          note="loop invariants; any number of nodes")
def natural(cx):
    """Continuous first derivative at every interior node; no curvature at
    the ends."""
    MT = cx.load("qsonic.mathtools")
    n = cx.length("n", 2, conc=(2, 9))
    dx = cx.real("dx", gt=0, pool=[1., 0.5, 0.8])
    fp = cx.array("fp", n)
    f0 = fp.copy()

    def d(k):
        return (f0[k + 1] + f0[k - 1] - 2 * f0[k]) / dx
    if cx.symbolic:
        st = {"loop": 0, "c": None, "u": None}

        def arrs(L):
            r = [a for a in L.values() if getattr(a, "ndim", 0) == 1
                 and a is not fp]
            y = [a for a in r if cx.same(a.shape[0], n)]
            u = [a for a in r if not cx.same(a.shape[0], n)]
            if len(y) != 1 or len(u) != 1:
                raise Unsupported("the arrays of the elimination")
            return y[0], u[0]

        def modifies(L):
            y, u = arrs(L)
            st["loop"] += 1
            if st["loop"] == 1:
                return [y, u]
            # the eliminated coefficients, before the back substitution
            st["c"], st["u"] = y.copy(), u.copy()
            return [y]

        def inv(L, i):
            y, u = arrs(L)
            if st["loop"] == 1:
                def f(k):
                    p = y[k - 1] / 2 + 2
                    return cx.And(
                        y[k] <= 0, y[k] >= -1 / 2,
                        cx.Implies(k >= 1, cx.And(
                            cx.eq(y[k] * p, -1 / 2),
                            cx.eq(u[k] * p, 3 * d(k) / dx - u[k - 1] / 2))))
                return [("eliminated", i, f),
                        ("ends", 1, lambda _: cx.And(
                            cx.eq(y[n - 1], 0.), cx.eq(y[0], 0.),
                            cx.eq(u[0], 0.)))]
            c, v = st["c"], st["u"]

            def g(k):
                return cx.ite(cx.And(k > i, k < n - 1), cx.eq(
                    y[k], c[k] * y[k + 1] + v[k]), cx.eq(y[k], c[k]))
            return [("substituted", n, g)]
        cx.loop_inv(inv, modifies)
    y2 = MT._spline_cubic_natural(fp, dx)
    cx.check("size", cx.eq(y2.shape[0], n))
    cx.forall("input unchanged", n, lambda k: cx.eq(fp[k], f0[k]))
    cx.check("ends", cx.And(cx.eq(y2[0], 0.), cx.eq(y2[n - 1], 0.)))
    for k in cx.each(n - 2, None) if cx.symbolic and st["c"] is not None \
            else []:
        # the elimination step, then the substitution
        c, v, k1, k2 = st["c"], st["u"], k + 1, k + 2
        p = c[k] / 2 + 2
        cx.check("lemma: substitution below", cx.eq(
            y2[k], c[k] * y2[k1] + v[k]))
        cx.check("lemma: substitution", cx.eq(
            y2[k1], c[k1] * y2[k2] + v[k1]))
        cx.check("lemma: pivot", cx.And(
            cx.eq(c[k1] * p, -1 / 2),
            cx.eq(v[k1] * p, 3 * d(k1) / dx - v[k] / 2)))
        cx.check("lemma: product", cx.eq(
            y2[k1] * p, c[k1] * p * y2[k2] + v[k1] * p))
        cx.check("lemma: product of the pivot", cx.eq(
            c[k1] * p * y2[k2], -y2[k2] / 2))
        cx.check("continuous first derivative at any node", cx.eq(
            y2[k] + 4 * y2[k1] + y2[k2], 6 * d(k1) / dx))
        return
    cx.forall("continuous first derivative", n - 2, lambda k: _eq(
        cx, y2[k] + 4 * y2[k + 1] + y2[k + 2], 6 * d(k + 1) / dx))


SIZES = [2, 3, 4, 5, 6, 7, 8, 12, 18, 19, 20, 21, 22, 24]


@scenario("C18", ["_spline_cubic_notaknot"], quick_s=200,
          bound="tables of 2 to 8, 12, 18 to 22 and 24 nodes; any values")
def notaknot(cx):
    """Continuous first derivative at every interior node; continuous third
    derivative at the first and last interior nodes."""
    MT = cx.load("qsonic.mathtools")
    n = cx.choice("n", SIZES + ([] if cx.symbolic and not cx.thorough
                                else [9, 10, 13, 16, 17, 30, 40]))
    dx = 0.5
    fp = cx.array("fp", n, lo=-1, hi=1)
    f0 = fp.copy()
    y2 = MT._spline_cubic_notaknot(fp, dx)
    cx.check("size", y2.shape[0] == n)
    y = [y2[k] * dx * dx for k in range(n)]

    def small(v):
        return cx.And(v <= 1e-9, v >= -1e-9)
    if n == 2:
        cx.check("a line through two points", cx.And(small(y[0]),
                                                     small(y[1])))
        return
    for k in range(1, n - 1):
        cx.check("continuous first derivative", small(
            y[k - 1] + 4 * y[k] + y[k + 1]
            - 6 * (f0[k - 1] - 2 * f0[k] + f0[k + 1])))
    cx.check("first knot", small(y[0] - 2 * y[1] + y[2]))
    cx.check("last knot", small(y[-1] - 2 * y[-2] + y[-3]))
    if n == 3:
        cx.check("a parabola through three points", small(y[0] - y[1]))
    for k in range(n):
        cx.check("input unchanged", cx.eq(fp[k], f0[k]))


@scenario("C18", ["_spline_cubic_notaknot"], quick_s=60,
          bound="tables of 4, 9 and 21 nodes", note="any spacing")
def spacing(cx):
    """Second derivatives scale with the spacing."""
    MT = cx.load("qsonic.mathtools")
    n = cx.choice("n", [2, 3, 4, 9, 21])
    kind = cx.choice("bc", ["not-a-knot", "natural"])
    f = (MT._spline_cubic_notaknot if kind == "not-a-knot"
         else MT._spline_cubic_natural)
    dx = cx.real("dx", gt=0, pool=[1., 0.5, 0.8, 2.])
    fp = cx.array("fp", n)
    a, b = f(fp.copy(), dx), f(fp.copy(), 1.)
    for k in range(n):
        cx.check("scaling", cx.eq(a[k] * dx * dx, b[k]))


@scenario("C18", ["FastCubic1DInterp.__init__", "FastCubic1DInterp.__call__",
                  "FastCubic1DInterp.reset", "FastLinear1DInterp.reset"],
          quick_s=60, bound="tables of 4 and 5 nodes")
def objects(cx):
    """The interpolator evaluates the spline of its current table."""
    MT = cx.load("qsonic.mathtools")
    np = cx.np()
    cls = cx.choice("class", ["linear", "not-a-knot", "natural"])
    n = cx.choice("n", [4, 5])
    copy = cx.flag("copy")
    x0 = cx.real("x0", pool=[0., 3.])
    dx = cx.choice("dx", [1., 0.5])
    tabs = [cx.array(f"fp{i}", n) for i in range(2)]
    eps = [cx.array(f"ep{i}", n) for i in range(2)]
    m = cx.length("m", 1, conc=(1, 6))
    x = cx.array("x", m)

    def make(fp, **k):
        if cls == "linear":
            return MT.FastLinear1DInterp(x0, dx, fp, **k)
        if cls == "natural":
            k["bc_type"] = "natural"
        return MT.FastCubic1DInterp(x0, dx, fp, **k)

    def expect(fp):
        if cls == "linear":
            return MT._fast_eval_interp1d_lin(x, x0, dx, fp)
        f = (MT._spline_cubic_notaknot if cls == "not-a-knot"
             else MT._spline_cubic_natural)
        return MT._fast_eval_interp1d_cubic(x, x0, dx, fp, f(fp, dx))
    given = tabs[0].copy()
    I = make(given, copy=copy, ep=eps[0] if cx.flag("ep") else None)
    if copy:
        given *= 0
    e = expect(tabs[0])
    r = I(x)
    cx.forall("value", m, lambda j: cx.eq(r[j], e[j]))
    given = tabs[1].copy()
    h = cx.flag("ep2")
    I.reset(given, copy=copy, ep=eps[1] if h else None)
    if copy:
        given *= 0
    e = expect(tabs[1])
    r = I(x)
    cx.forall("value after reset", m, lambda j: cx.eq(r[j], e[j]))
    cx.check("errors kept", (I.ep is None) == (not h))
    if h:
        cx.forall("errors", n, lambda k: cx.eq(I.ep[k], eps[1][k]))
    if cls != "linear":
        b, ex = cx.call(MT.FastCubic1DInterp, x0, dx, tabs[0],
                        bc_type="other")
        cx.check_raises("unknown boundary condition", ex, Exception)


@scenario("C18", ["mypoly1d"], quick_s=60, bound="orders 0 to 3, any points")
def polynomial(cx):
    """Power series."""
    MT = cx.load("qsonic.mathtools")
    o = cx.choice("order", [0, 1, 2, 3])
    m = cx.length("m", 1, conc=(1, 6))
    c, x = cx.array("c", o + 1), cx.array("x", m)
    x0 = x.copy()
    r = MT.mypoly1d(c, x)
    cx.check("size", cx.eq(r.shape[0], m))
    cx.forall("value", m, lambda j: cx.eq(r[j], sum(
        c[i] * x0[j]**i for i in range(o + 1))))
    cx.forall("input unchanged", m, lambda j: cx.eq(x[j], x0[j]))


@scenario("C18", ["FastCubic1DInterp.__call__", "_spline_cubic_notaknot",
                  "_spline_cubic_natural"], sym=False, conc_n=40,
          bound="sampled, against scipy CubicSpline")
def scipy_agrees(cx):
    """The documented reference: scipy's cubic spline."""
    import numpy as np
    from scipy.interpolate import CubicSpline
    MT = cx.load("qsonic.mathtools")
    bc = cx.choice("bc", ["not-a-knot", "natural"])
    n = cx.choice("n", [2, 3, 4, 5, 7, 15, 18, 19, 20, 33, 60])
    x0, dx = cx.choice("x0", [0., 3600.]), cx.choice("dx", [1., 0.8, 60.])
    fp = cx.array("fp", n)
    t = np.array(cx.array("t", 9, lo=-1, hi=2))
    xp = x0 + np.arange(n) * dx
    x = x0 + np.clip(t, 0, 1) * (n - 1) * dx
    x = np.append(x, xp)
    y = MT.FastCubic1DInterp(x0, dx, fp, bc_type=bc)(x)
    z = CubicSpline(xp, fp, bc_type=bc)(x)
    cx.check("spline", bool(np.all(np.abs(y - z) < 1e-6)))
