"""C08: calibration rescales noise and flux as documented."""
import os
from vf.run import scenario
from contracts.common import *

ASSUME = ["interpolated eta is positive (and, for the additive term, "
          "eta + ivar*varlss*C^2 is not zero)"]


def _table(cx, hdu, **cols):
    """Calibration file on an equally spaced grid."""
    nt = cx.length("nt", 5, conc=(5, 9))
    x0 = cx.real("x0", gt=0, pool=[1., 2.])
    dx = cx.real("dx", gt=0, pool=[1., 2.5])
    t = {"lambda": cx.affine_grid(x0, dx, nt)}
    for k, o in cols.items():
        t[k] = cx.array(k, nt, **o)
    fname = os.path.join(cx.tmp(), "calib.fits")
    cx.put_file(fname, [(hdu, cx.table("calib", nt, **t), {})])
    return fname, nt, x0, dx, t


def _usable(cx, label, made, x0, dx, nt, col, fix):
    """The interpolation table: the file's, zeros replaced by 1."""
    mx, md, my = made
    cx.check(label + " grid", cx.And(cx.eq(mx, x0), cx.eq(md, dx),
                                     cx.eq(cx.n(my), nt)))
    cx.forall(label + " table", nt, lambda k: cx.eq(my[k], cx.ite(
        col[k] == 0, 1., col[k]) if fix else col[k]))


def _untouched(cx, spec, old, what):
    f0, i0, w0 = old
    for a in w0:
        m = cx.n(w0[a])
        cx.forall("other quantities unchanged", m, lambda k: cx.And(
            cx.eq(spec.forestwave[a][k], w0[a][k]),
            True if "flux" in what else
            cx.eq(spec.forestflux[a][k], f0[a][k])))


@scenario("C08", ["NoiseCalibrator.__init__", "NoiseCalibrator._read",
                  "NoiseCalibrator.apply"], quick_s=200)
def noise(cx):
    MT = cx.load("qsonic.mathtools")
    S = cx.load("qsonic.spectrum")
    vl = cx.fun("varlss_of", lo=None)
    et = cx.fun("eta_of", gt=0)
    # tables are told apart by what they were built from
    made = []
    C = cx.load("qsonic.calibration")
    fname, nt, x0, dx, t = _table(
        cx, "VAR_FUNC", eta=dict(lo=0, pool=[0., 0.9, 1., 1.2]),
        var_lss=dict(lo=0, pool=[0., 0.1, 0.3]))
    tabs = []
    real = C.FastCubic1DInterp

    class Interp(Stand):
        def __init__(self, xp0, dxp, fp, *a, **k):
            self.fp = fp.copy()
            self.args = (xp0, dxp, self.fp)
            self.f = None if cx.symbolic else real(xp0, dxp, self.fp)
            tabs.append(self)

        def __call__(self, x):
            return self.f(x)
    C.FastCubic1DInterp = Interp
    add, noeta, nspec = cx.choice("cfg", [
        (False, False, 1), (True, False, 1), (False, True, 1),
        (True, True, 1), (False, False, 2), (True, False, 2)])
    cal = C.NoiseCalibrator(fname, add_varlss=add, no_eta=noeta)
    # whichever object serves as eta (varlss) must hold the eta (varlss)
    # table
    ei, vi = cal.eta_interp, cal.varlss_interp
    if not noeta:
        _usable(cx, "eta", ei.args, x0, dx, nt, t["eta"], True)
        if cx.symbolic:
            ei.f = et
    if add:
        _usable(cx, "varlss", vi.args, x0, dx, nt, t["var_lss"], False)
        if cx.symbolic:
            vi.f = vl
    specs, olds = [], []
    np = cx.np()
    conts = []
    for j in range(nspec):
        arms = ("B", "R")
        spec, wave, n, z = forest(cx, S, arms, p=f"q{j}_", start=1.,
                                  step=0.7, conc=(2, 9),
                                  share=(wave, n) if j else None)
        cont = {a: cx.array(f"q{j}_cont_{a}", n[a], gt=0) for a in arms}
        spec.cont_params["cont"] = cont
        specs.append(spec)
        olds.append(snapshot(spec))
        conts.append(cont)
    exp = []
    for j, spec in enumerate(specs):
        f0, i0, w0 = olds[j]
        for a in w0:
            e = ei(w0[a]) if not noeta else None
            v = vi(w0[a]) if add else None

            def value(k, a=a, e=e, v=v, i0=i0, c=conts[j][a]):
                den = 1. if e is None else e[k]
                if v is not None:
                    den = den + i0[a][k] * v[k] * c[k] * c[k]
                return den
            cx.assume_forall(cx.n(w0[a]), lambda k: cx.And(
                value(k) != 0, True if e is None else e[k] > 0))
            exp.append((spec, a, value, i0))
    cal.apply(specs)
    for spec, a, den, i0 in exp:
        m = cx.n(i0[a])
        iv = spec.forestivar[a]
        cx.check("size", cx.eq(cx.n(iv), m))

        def ok(k):
            q = i0[a][k] / den(k)
            return cx.And(cx.eq(iv[k], cx.ite(q < 0, 0., q)), iv[k] >= 0,
                          cx.Implies(i0[a][k] == 0, iv[k] == 0))
        cx.forall("noise rule", m, ok)
    for spec, old in zip(specs, olds):
        _untouched(cx, spec, old, ())


@scenario("C08", ["NoiseCalibrator.apply"])
def noise_needs_continuum(cx):
    """The additive term without a continuum is refused, before anything is
    changed."""
    S = cx.load("qsonic.spectrum")
    C = cx.load("qsonic.calibration")
    fname, nt, x0, dx, t = _table(
        cx, "VAR_FUNC", eta=dict(gt=0), var_lss=dict(gt=0))

    class Interp(Stand):
        def __init__(self, *a, **k):
            pass

        def __call__(self, x):
            return x * 0. + 2.
    C.FastCubic1DInterp = Interp
    cal = C.NoiseCalibrator(fname, add_varlss=True)
    specs = []
    for j in range(2):
        spec, wave, n, z = forest(cx, S, ("B",), p=f"q{j}_",
                                  share=(wave, n) if j else None)
        specs.append(spec)
    if cx.flag("one_has"):
        specs[0].cont_params["cont"] = {"B": cx.np().ones(cx.n(
            specs[0].forestwave["B"]))}
    olds = [snapshot(s) for s in specs]
    _, ex = cx.call(cal.apply, specs)
    cx.check_raises("refused", ex)
    for s, o in zip(specs, olds):
        cx.forall("unchanged", cx.n(o[1]["B"]), lambda k: cx.eq(
            s.forestivar["B"][k], o[1]["B"][k]))


@scenario("C08", ["FluxCalibrator.__init__", "FluxCalibrator._read",
                  "FluxCalibrator.apply"], quick_s=200)
def flux(cx):
    S = cx.load("qsonic.spectrum")
    C = cx.load("qsonic.calibration")
    fname, nt, x0, dx, t = _table(
        cx, "STACKED_FLUX", stacked_flux=dict(pool=[0., 0.5, 1., 2.], gt=-1))
    sf = cx.fun("stack_of")
    tabs = []
    real = C.FastLinear1DInterp

    class Interp(Stand):
        def __init__(self, xp0, dxp, fp, *a, **k):
            self.fp = fp.copy()
            self.args = (xp0, dxp, self.fp)
            self.f = sf if cx.symbolic else real(xp0, dxp, self.fp)

        def __call__(self, x):
            return self.f(x)
    C.FastLinear1DInterp = Interp
    cal = C.FluxCalibrator(fname)
    si = cal.stacked_flux_interp
    _usable(cx, "stack", si.args, x0, dx, nt, t["stacked_flux"], True)
    nspec = cx.choice("nspec", [1, 2])
    specs, olds = [], []
    for j in range(nspec):
        arms = ("B", "R")
        spec, wave, n, z = forest(cx, S, arms, p=f"q{j}_", start=1.,
                                  step=0.7, conc=(2, 9),
                                  share=(wave, n) if j else None)
        specs.append(spec)
        olds.append(snapshot(spec))
        for a in arms:
            v = si(wave[a])
            cx.assume_forall(n[a], lambda k: v[k] != 0)
    cal.apply(specs)
    for spec, (f0, i0, w0) in zip(specs, olds):
        for a in w0:
            m = cx.n(w0[a])
            s = si(w0[a])
            f, i = spec.forestflux[a], spec.forestivar[a]
            cx.check("size", cx.And(cx.eq(cx.n(f), m), cx.eq(cx.n(i), m)))
            cx.forall("flux rule", m, lambda k: cx.And(
                cx.eq(f[k], f0[a][k] / s[k]),
                cx.eq(i[k], i0[a][k] * s[k] * s[k]),
                cx.Implies(i0[a][k] == 0, i[k] == 0),
                cx.Implies(i0[a][k] > 0, i[k] > 0),
                cx.eq(spec.forestwave[a][k], w0[a][k])))


@scenario("C08", ["NoiseCalibrator._read", "FluxCalibrator._read"])
def spacing(cx):
    """Tables on unequally spaced wavelengths are rejected."""
    C = cx.load("qsonic.calibration")
    C.FastCubic1DInterp = C.FastLinear1DInterp = lambda *a, **k: None
    which = cx.choice("which", ["noise", "flux"])
    nt = cx.length("nt", 2, conc=(2, 6))
    w = cx.array("lam", nt, gt=0, pool=[1., 2., 3., 4., 5.])
    if not cx.symbolic and cx.flag("even"):
        w = cx.affine_grid(1., 2., nt)
    cols = dict(eta=dict(gt=0), var_lss=dict(gt=0)) if which == "noise" \
        else dict(stacked_flux=dict(gt=0))
    t = {"lambda": w}
    for k, o in cols.items():
        t[k] = cx.array(k, nt, **o)
    fname = os.path.join(cx.tmp(), "calib.fits")
    cx.put_file(fname, [(
        "VAR_FUNC" if which == "noise" else "STACKED_FLUX",
        cx.table("calib", nt, **t), {})])
    _, ex = cx.call(C.NoiseCalibrator if which == "noise"
                    else C.FluxCalibrator, fname)
    d = w[1] - w[0]
    ad = cx.ite(d > 0, d, -d)
    bad = cx.exists(nt - 1, lambda k: cx.Or(
        w[k + 1] - w[k] - d > 1e-8 + 1e-5 * ad,
        w[k + 1] - w[k] - d < -1e-8 - 1e-5 * ad))
    cx.check("rejected iff not equally spaced",
             cx.Not(bad) if ex is None else bad)
