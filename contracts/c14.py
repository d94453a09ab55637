"""C14: a continuum is accepted only under the documented conditions, and it
is the documented one."""
import warnings

from vf.run import scenario
from contracts.common import *

ASSUME = ["the mean flux and eta are positive, var_lss is not negative",
          "the logarithm is an uninterpreted function in the symbolic run"]
TRUSTED = ["iminuit.Minuit, scipy.optimize.minimize: any outcome (success or "
           "failure, any parameters)",
           "the interpolators enter by their contract (C18): a fixed function",
           "healpy.ang2pix: any function of the position"]


def _model(cx, order=1):
    """A PiccaContinuumModel with arbitrary mean functions."""
    M = cx.load("qsonic.continuum_models.picca_continuum_model")
    f = dict(mc=cx.fun("meancont"), mf=cx.fun("meanflux", gt=0),
             vl=cx.fun("varlss", lo=0), et=cx.fun("eta", gt=0))
    rf0 = cx.real("rfwave0", gt=0, pool=[1., 2.])
    den = cx.real("denom", gt=0, pool=[0.5, 1.])
    m = M.PiccaContinuumModel(
        f["mc"], f["mf"], f["vl"], f["et"], order, rf0, den,
        cx.choice("minimizer", ["iminuit", "l_bfgs_b"]) if not cx.symbolic
        else "iminuit")
    return M, m, f, rf0, den


def _poly(cx, f, x, order, w, z, rf0, den):
    """mean continuum times the polynomial, for an array of wavelengths."""
    np = cx.np()
    rf = w / (1 + z)
    t = 2 * (np.log(rf / rf0) / den) - 1
    p = x[0] + 0 * t
    for i in range(1, order + 1):
        p = p + x[i] * t**i
    return f["mc"](rf) * p


@scenario("C14", ["PiccaContinuumModel.fit_continuum",
                  "PiccaContinuumModel.get_continuum_model",
                  "PiccaContinuumModel.init_spectra", "mypoly1d",
                  "Spectrum.set_forest_weight",
                  "Spectrum.calc_continuum_chi2"], quick_s=300)
def picca(cx):
    np = cx.np()
    arms, order = cx.choice("cfg", [(("B", "R"), 1), (("B",), 0)] + (
        [(("B", "R", "Z"), 2), (("R",), 1)]
        if cx.thorough or not cx.symbolic else []))
    S = cx.load("qsonic.spectrum")
    M, m, f, rf0, den = _model(cx, order)
    spec, wave, n, z = forest(cx, S, arms)
    x_init = spec.cont_params['x'][0]
    m.init_spectra([spec])
    c = spec.cont_params
    cx.check("initial parameters", cx.And(
        cx.eq(cx.n(c['x']), order + 1), cx.eq(c['x'][0], x_init),
        *[cx.eq(c['x'][i], 0.) for i in range(1, order + 1)]))
    cx.check("degrees of freedom", cx.eq(
        c['dof'], spec.get_real_size() - order - 1))
    before = cx.choice("before", ["none", "stale"])
    if before == "stale":       # an earlier iteration's continuum
        c['valid'] = cx.flag("stalevalid")
        c['cont'] = {a: cx.array(f"old_{a}", n[a], gt=0) for a in arms}
    ok = cx.flag("ok")
    x = cx.array("x", order + 1, lo=-4, hi=4)
    xc = cx.array("xcov", (order + 1, order + 1))
    x_in, calls = x.copy(), []

    def minimizer(sp, a0):
        calls.append((sp, a0))
        return dict(valid=ok, x=x, xcov=xc)
    m.minimizer = minimizer
    fl, iv, wv = snapshot(spec)
    sm = {a: spec.forestivar_sm[a].copy() for a in arms}
    m.fit_continuum(spec)
    cx.check("one fit of this spectrum", len(calls) == 1
             and calls[0][0] is spec)
    want = {a: _poly(cx, f, x_in, order, wv[a], z, rf0, den) for a in arms}
    mf = {a: f["mf"](wv[a]) for a in arms}
    if not c['valid']:
        if ok:
            cx.check("rejected only for a negative continuum", cx.Or(*[
                cx.exists(n[a], lambda k: want[a][k] < 0) for a in arms]))
        cx.check("no continuum", c['cont'] is None)
        cx.check("chi2 of a rejected fit", cx.eq(c['chi2'], -1))
        return
    cx.check("the minimiser succeeded", ok)
    cx.check("arms", set(c['cont']) == set(arms))
    chi2 = 0.
    for a in arms:
        C, W = c['cont'][a], spec.forestweight[a]
        na = n[a]
        cx.check("pixels", cx.And(cx.eq(cx.n(C), na), cx.eq(cx.n(W), na)))
        cx.forall("not negative", na, lambda k: want[a][k] >= 0)
        cx.forall("continuum", na, lambda k: cx.eq(
            C[k], want[a][k] * mf[a][k]))
        vl, et = f["vl"](wv[a]), f["et"](wv[a])
        i = sm[a]
        cx.forall("weight of the new continuum", na, lambda k: cx.eq(
            W[k], i[k] / (et[k] + i[k] * (vl[k] * C[k]**2))))
        chi2 = chi2 + np.dot(W, (fl[a] - C)**2)
        cx.forall("data unchanged", na, lambda k: cx.And(
            cx.eq(spec.forestflux[a][k], fl[a][k]),
            cx.eq(spec.forestivar[a][k], iv[a][k]),
            cx.eq(spec.forestivar_sm[a][k], i[k])))
    cx.check("chi2", cx.eq(c['chi2'], chi2))
    cx.forall("parameters", order + 1, lambda k: cx.eq(c['x'][k], x_in[k]))
    cx.check("covariance", c['xcov'] is xc)


@scenario("C14", ["PiccaContinuumModel._continuum_costfn",
                  "PiccaContinuumModel._iminuit_minimizer",
                  "PiccaContinuumModel._scipy_l_bfgs_b_minimizer"],
          quick_s=200)
def minimisers(cx):
    """What is minimised, from where, and what is taken as the result."""
    np = cx.np()
    arms, order = cx.choice("cfg", [(("B", "R"), 1)] + (
        [(("B",), 2), (("B",), 0)] if cx.thorough or not cx.symbolic else []))
    S = cx.load("qsonic.spectrum")
    M, m, f, rf0, den = _model(cx, order)
    spec, wave, n, z = forest(cx, S, arms)
    m.init_spectra([spec])
    fl, iv, wv = snapshot(spec)
    sm = {a: spec.forestivar_sm[a].copy() for a in arms}
    a0 = cx.real("a0")
    x = cx.array("x", order + 1, lo=-2, hi=2)
    ok = cx.flag("ok")
    res = cx.array("res", order + 1)
    cov = cx.array("cov", (order + 1, order + 1))
    got = []

    class Minuit(Stand):
        LEAST_SQUARES = 1.

        def __init__(self, cost, x0, *a, **k):
            self.cost, self.x0 = cost, x0
            self.ran = 0
            got.append(self)
            self.valid, self.values, self.covariance = None, x0, None

        def migrad(self, *a, **k):
            self.ran += 1
            self.valid, self.values, self.covariance = ok, res, cov
            return self

        def hesse(self, *a, **k):
            return self

    class Res(Stand):
        success, x = ok, res

        class hess_inv:
            todense = staticmethod(lambda: cov)

    def minimize(cost, x0, args=(), **k):
        got.append(Minuit.__new__(Minuit))
        got[-1].cost = lambda y: cost(y, *args)
        got[-1].x0, got[-1].ran = x0, 1
        return Res
    M.Minuit, M.minimize = Minuit, minimize
    which = cx.choice("which", ["_iminuit_minimizer",
                                "_scipy_l_bfgs_b_minimizer"])
    r = getattr(m, which)(spec, a0)
    cx.check("one minimisation", len(got) == 1 and got[0].ran == 1)
    g = got[0]
    cx.check("start", cx.And(cx.eq(cx.n(g.x0), order + 1),
                             cx.eq(g.x0[0], a0), *[
        cx.eq(g.x0[i], 0.) for i in range(1, order + 1)]))
    cx.check("success of the minimiser", r['valid'] == ok)
    cx.forall("parameters", order + 1, lambda k: cx.eq(r['x'][k], res[k]))
    cx.forall("covariance", (order + 1, order + 1), lambda i, k: cx.eq(
        r['xcov'][i, k], cov[i, k]))
    val = g.cost(x)
    cost = 0.
    for a in arms:
        C = _poly(cx, f, x, order, wv[a], z, rf0, den) * f["mf"](wv[a])
        w = sm[a] / (f["et"](wv[a]) + sm[a] * (f["vl"](wv[a]) * C**2))
        cost = cost + (np.dot(w, (fl[a] - C)**2) - np.log(w[w > 0]).sum())
    cx.check("cost", cx.eq(val, cost, tol=1e-6) if not cx.symbolic
             else cx.eq(val, cost))


@scenario("C14", ["PiccaContinuumModel.fit_continuum",
                  "PiccaContinuumModel._iminuit_minimizer",
                  "PiccaContinuumModel._scipy_l_bfgs_b_minimizer"],
          sym=False, conc_n=12, bound="sampled: noiseless spectra of a known "
          "continuum, fitted with the real minimisers")
def recovers(cx):
    """With the real minimisers a noiseless spectrum gives back its own
    continuum."""
    np = cx.np()
    S = cx.load("qsonic.spectrum")
    M = cx.load("qsonic.continuum_models.picca_continuum_model")
    MT = cx.load("qsonic.mathtools")
    k = cx.choice("minimizer", ["iminuit", "l_bfgs_b"])
    mc = MT.FastCubic1DInterp(1000., 20., np.linspace(1., 1.3, 16))
    one = MT.FastLinear1DInterp(3000., 3000., np.ones(3))
    m = M.PiccaContinuumModel(mc, one, lambda w: 0.05 + 0 * w,
                              lambda w: 1. + 0 * w, 1, 1040.,
                              np.log(1200 / 1040.), k)
    spec, wave, n, z = forest(cx, S, ("B",), start=3700., step=2.,
                              conc=(60, 120), z=2.5)
    a, b = cx.choice("amp", [1., 3.]), cx.choice("slope", [-0.25, 0., 0.25])
    w = spec.forestwave["B"]
    t = 2 * np.log(w / 3.5 / 1040.) / m.denom - 1
    true = mc(w / 3.5) * (a + b * t)
    spec.forestflux["B"][:] = true
    spec.forestivar["B"][:] = 400.
    m.init_spectra([spec])
    m.fit_continuum(spec)
    cx.check("valid", spec.cont_params['valid'])
    # log(weight) in the cost biases the amplitude upwards slightly
    cx.check("continuum recovered", np.all(np.abs(
        spec.cont_params['cont']["B"] / true - 1) < 0.06))


def _interp_fun(cx, MOD, f):
    """FastCubic1DInterp by its contract; returns the construction record."""
    return opaque_interp(cx, MOD, "FastCubic1DInterp", [f])


@scenario("C14", ["TrueContinuumModel.fit_continuum",
                  "TrueContinuumModel.init_spectra"], quick_s=150)
def true_continuum(cx):
    np = cx.np()
    arms = cx.choice("arms", [("B", "R"), ("B",)])
    T = cx.load("qsonic.continuum_models.true_continuum_model")
    S = cx.load("qsonic.spectrum")
    tc = cx.fun("tcont", gt=0)
    made = _interp_fun(cx, T, tc)
    mf, vl = cx.fun("meanflux", gt=0), cx.fun("varlss", lo=0)
    spec, wave, n, z = forest(cx, S, arms)
    nt = cx.length("nt", 5, conc=(5, 8))
    tab = cx.array("tab", nt, gt=0)
    w1, dw = cx.real("w1", gt=0, pool=[1., 3.]), cx.real("dw", gt=0,
                                                         pool=[0.5, 2.])
    c = spec.cont_params
    c['true_data_w1'], c['true_data_dwave'], c['true_data'] = w1, dw, tab
    m = T.TrueContinuumModel(mf, vl)
    fl, iv, wv = snapshot(spec)
    m.init_spectra([spec])
    cx.check("dof", cx.eq(c['dof'], spec.get_real_size()))
    m.fit_continuum(spec)
    cx.check("one table", len(made) == 1)
    cx.check("valid", c['valid'] is True)
    cx.check("grid of the input", cx.And(
        cx.eq(made[0][0], w1), cx.eq(made[0][1], dw),
        cx.eq(cx.n(made[0][2]), nt)))
    cx.forall("table of the input", nt, lambda k: cx.eq(
        made[0][2][k], tab[k]))
    if not cx.symbolic:
        tc = cx.load("qsonic.mathtools").FastCubic1DInterp(w1, dw, tab)
    cx.check("arms", set(c['cont']) == set(arms))
    chi2 = 0.
    for a in arms:
        C, W, na = c['cont'][a], spec.forestweight[a], n[a]
        t, f, v = tc(wv[a]), mf(wv[a]), vl(wv[a])
        cx.check("pixels", cx.eq(cx.n(C), na))
        cx.forall("continuum", na, lambda k: cx.eq(C[k], t[k] * f[k]))
        cx.forall("weight", na, lambda k: cx.eq(
            W[k], iv[a][k] / (1 + iv[a][k] * (v[k] * C[k]**2))))
        chi2 = chi2 + np.dot(W, (fl[a] - C)**2)
    cx.check("chi2", cx.eq(c['chi2'], chi2))


@scenario("C14", ["InputContinuumModel.fit_continuum"], quick_s=150)
def input_continuum(cx):
    np = cx.np()
    arms = cx.choice("arms", [("B", "R"), ("B",)])
    T = cx.load("qsonic.continuum_models.input_continuum_model")
    S = cx.load("qsonic.spectrum")
    tc = cx.fun("icont")
    made = _interp_fun(cx, T, tc)
    mf, vl, et = cx.fun("meanflux", gt=0), cx.fun("varlss", lo=0), cx.fun(
        "eta", gt=0)
    spec, wave, n, z = forest(cx, S, arms)
    nt = cx.length("nt", 5, conc=(5, 8))
    tab = cx.array("tab", nt, pool=[1., 2., 1.5, 3., 1., 2., -0.5])
    w1, dw = cx.real("w1", gt=0, pool=[1., 3.]), cx.real("dw", gt=0,
                                                         pool=[0.5, 2.])
    c = spec.cont_params
    found = cx.flag("found")
    c['valid'], c['cont'] = found, {}
    if found:
        c['input_w1'], c['input_dwave'], c['input_data'] = w1, dw, tab
    m = T.InputContinuumModel("/nowhere", mf, vl, et)
    fl, iv, wv = snapshot(spec)
    m.fit_continuum(spec)
    if not cx.symbolic:
        tc = cx.load("qsonic.mathtools").FastCubic1DInterp(w1, dw, tab)
    want = {a: tc(wv[a] / (1 + z)) for a in arms}
    if not c['valid']:
        if found:
            cx.check("rejected only if not positive", cx.Or(*[
                cx.exists(n[a], lambda k: want[a][k] <= 0) for a in arms]))
        cx.check("no continuum", c['cont'] is None)
        cx.check("chi2 of a rejected spectrum", cx.eq(c['chi2'], -1))
        return
    cx.check("has an input continuum", found and len(made) == 1)
    cx.check("grid of the input", cx.And(
        cx.eq(made[0][0], w1), cx.eq(made[0][1], dw),
        cx.eq(cx.n(made[0][2]), nt)))
    cx.forall("table of the input", nt, lambda k: cx.eq(
        made[0][2][k], tab[k]))
    cx.check("arms", set(c['cont']) == set(arms))
    for a in arms:
        C, W, na = c['cont'][a], spec.forestweight[a], n[a]
        f, v, e = mf(wv[a]), vl(wv[a]), et(wv[a])
        cx.check("pixels", cx.eq(cx.n(C), na))
        cx.forall("positive", na, lambda k: C[k] > 0)
        cx.forall("continuum", na, lambda k: cx.eq(C[k], want[a][k] * f[k]))
        cx.forall("weight", na, lambda k: cx.eq(
            W[k], iv[a][k] / (e[k] + iv[a][k] * (v[k] * C[k]**2))))


@scenario("C14", ["InputContinuumModel.init_spectra",
                  "InputContinuumModel._read_continua",
                  "InputContinuumModel._read_continua_one_file",
                  "_find_append_continuum"], sym=False, conc_n=40,
          bound="sampled: up to 6 spectra in up to 3 files")
def input_read(cx):
    """Each spectrum gets the input continuum of its own target; targets
    without one are invalid."""
    warnings.simplefilter("ignore")
    np = cx.np()
    from healpy import ang2pix
    T = cx.load("qsonic.continuum_models.input_continuum_model")
    S = cx.load("qsonic.spectrum")
    ns = cx.choice("ns", [0, 1, 3, 6])
    pos = [(10., 20.), (200., -30.), (11., 20.5), (320., 60.)]
    share, specs, pix = None, [], []
    for i in range(ns):
        ra, dec = pos[cx.int(f"pos{i}", 0, 3)]
        row = dict(TARGETID=cx.int(f"tid{i}", 1, 6), RA=ra, DEC=dec,
                   HPXPIXEL=i)
        sp, wave, n, z = forest(cx, S, ("B",), f"s{i}", row=row, share=share,
                                conc=(2, 4))
        share = (wave, n)
        specs.append(sp)
        pix.append(int(ang2pix(8, ra, dec, lonlat=True, nest=True)))
    data = {}
    for p in sorted(set(pix)):
        if cx.flag(f"nofile{p}"):
            continue
        ids = [t for t in range(1, 7) if cx.flag(f"in{p}.{t}")]
        cx.r.shuffle(ids)
        if not ids:
            continue
        C = np.array([[100 * p + t + 0.125 * j for j in range(6)]
                      for t in ids], dtype='f8')
        w1, dw = 1000. + p, 2. + p
        for t, c in zip(ids, C):
            data[p, t] = (w1, dw, c)
        cx.put_file(f"{cx.tmp()}/input-continuum-8-{p}.fits", [
            ("FIBERMAP", np.array(ids, dtype=[("TARGETID", 'i8')]), {}),
            ("CONTINUA", C, dict(WAVE1=w1, DWAVE=dw))])
    m = T.InputContinuumModel(cx.tmp(), lambda w: 1., lambda w: 0.,
                              lambda w: 1.)
    r, ex = cx.call(m.init_spectra, list(specs))
    cx.no_exc("reading the continua (also on a rank without spectra)", ex)
    for sp, p in zip(specs, pix):
        want = data.get((p, int(sp.targetid)))
        c = sp.cont_params
        cx.check("found exactly if in the file", bool(c['valid']) == (
            want is not None))
        if want is not None:
            cx.check("its own continuum", c['input_w1'] == want[0]
                     and c['input_dwave'] == want[1]
                     and np.array_equal(c['input_data'], want[2]))


@scenario("C14", ["PiccaContinuumFitter.fit_continua"], quick_s=60)
def all_spectra(cx):
    """Every spectrum is fitted once; a run without any valid fit stops on
    every rank."""
    size = cx.choice("size", [1, 2, 3])
    nsp = [cx.choice(f"n{r}", [0, 1, 2]) for r in range(size)]
    flags = [[cx.flag(f"v{r}.{i}") for i in range(nsp[r])]
             for r in range(size)]

    def body(comm, load):
        PC = load("qsonic.picca_continuum")
        F = bare(PC.PiccaContinuumFitter)
        F.comm, F.mpi_rank = comm, comm.Get_rank()
        fitted = []

        class Sp(Stand):
            def __init__(self, v):
                self.v, self.cont_params = v, {'valid': None}

        class Model(Stand):
            def fit_continuum(self, sp):
                fitted.append(sp)
                sp.cont_params['valid'] = sp.v
        F.model = Model()
        sps = [Sp(v) for v in flags[comm.Get_rank()]]
        r, ex = cx.call(F.fit_continua, sps)
        return ([s in fitted for s in sps], len(fitted),
                None if ex is None else type(ex).__name__)
    out = cx.world(size, body)
    good = any(v for fl in flags for v in fl)
    for r in range(size):
        o, ex = out[r]
        cx.no_exc("no other failure", ex)
        cx.check("every spectrum is fitted once", all(o[0])
                 and o[1] == nsp[r])
        cx.check("stops on every rank exactly if nothing is valid",
                 o[2] == (None if good else "QsonicException"))


class _Interp(Stand):
    """Stand-in for an interpolator: a table of its own."""

    def __init__(self, tag):
        self.tag = tag
        self.fp = self.ep = None

    def reset(self, fp, copy=False, ep=None):
        self.tag = ("reset", self.tag)


@scenario("C14", ["PiccaContinuumFitter.iterate",
                  "PiccaContinuumFitter.fit_final_varlss"], quick_s=60,
          bound="at most 3 iterations, any pattern of convergence")
def iteration(cx):
    """The functions that enter the weights after the last fit are those the
    fits used: the final fit of var_lss (for information) does not replace
    them; every iteration fits before it updates, and stops when converged."""
    PC = cx.load("qsonic.picca_continuum")
    fits = cx.flag("fits_varlss")
    nit = cx.choice("niterations", [1, 2, 3])
    conv = [cx.flag(f"converged{i}") for i in range(nit)]
    F = bare(PC.PiccaContinuumFitter)
    log, sps = [], ["spectra"]

    class Fitter(Stand):
        def __init__(self, *a, **k):
            pass

        def construct_interp(self, v):
            return _Interp(("final", v))

        def write(self, f):
            log.append("write")

    class Saver(Stand):
        def __init__(self, *a):
            pass

        def close(self):
            pass

    class Model(Stand):
        def init_spectra(self, s):
            log.append("init")

    class Args(metaclass=PartialType):
        wave1, wave2, var_use_cov = 3600., 6000., False
    lss, eta = _Interp("lss"), _Interp("eta")
    F.varlss_interp, F.eta_interp = lss, eta
    F.varlss_fitter = Fitter() if fits else None
    F.niterations, F.outdir, F.mpi_rank, F.comm = nit, None, 0, None
    F.args, F.model = Args, Model()
    F.normalize_stacked_flux = F.eta_calib_ivar = False
    done = []

    def fit(s):
        log.append("fit")

    def mean(s):
        log.append("mean")
        done.append(1)
        return conv[len(done) - 1] if len(done) <= nit else True

    def var(s):
        log.append("var")
        F.varlss_interp.reset(None)
        F.eta_interp.reset(None)
    F.fit_continua, F.update_mean_cont, F.update_var_lss_eta = fit, mean, var
    F.save = lambda *a, **k: None
    sv = (PC.VarLSSFitter, PC.MPISaver)
    PC.VarLSSFitter, PC.MPISaver = Fitter, Saver
    try:
        F.iterate(sps)
    finally:
        PC.VarLSSFitter, PC.MPISaver = sv
    n = nit
    for i in range(nit):
        if conv[i]:
            n = i + 1
            break
    cx.check("spectra are initialised once, first",
             log[0] == "init" and log.count("init") == 1)
    cx.check("one fit per iteration, until converged", log.count("fit") == n)
    steps = [x for x in log if x in ("fit", "mean")]
    cx.check("fit, then update", steps[:2 * n] == ["fit", "mean"] * n)
    cx.check("var_lss is fitted in every iteration, or once at the end",
             log.count("var") == (n if fits else 1))
    if fits:
        cx.check("fitted functions enter the weights",
                 F.varlss_interp is lss and F.eta_interp is eta)
    else:
        cx.check("fiducial functions stay in the weights",
                 F.varlss_interp is lss and F.eta_interp is eta
                 and lss.tag == "lss" and eta.tag == "eta")


@scenario("C14", ["mpi_continuum_fitting", "valid_spectra"], quick_s=60,
          bound="at most 3 spectra, any validity")
def later_steps(cx):
    """Only spectra with a valid continuum go on: noise term, weights, coadd
    of arms, output; the catalog of fits lists all of them."""
    M = cx.load("qsonic.scripts.qsonic_fit")
    k = cx.choice("spectra", [0, 1, 2, 3])
    valid = [cx.flag(f"valid{i}") for i in range(k)]
    noise = cx.choice("noise", [(None, False), ("f", False), ("f", True),
                                (None, True)])
    arms = cx.choice("coadd_arms", ["before", "after", "disable"])
    log, lss, eta = [], object(), object()

    class Sp(Stand):
        _smoothing_scale = 16.

        def __init__(self, i):
            self.i, self.cont_params = i, {'valid': None}

        def set_smooth_forestivar(self, s):
            log.append(("smooth", self.i, s))

        def set_forest_weight(self, *a, **kw):
            log.append(("weight", self.i) + a + tuple(kw.values()))

        def coadd_arms_forest(self, *a, **kw):
            log.append(("coadd", self.i) + a + tuple(kw.values()))

        def calc_continuum_chi2(self):
            log.append(("chi2", self.i))

    class Fit(Stand):
        varlss_interp, eta_interp = lss, eta

        def __init__(self, args):
            pass

        def iterate(self, s):
            for x in s:
                x.cont_params['valid'] = valid[x.i]

        def save_contchi2_catalog(self, s):
            log.append(("cat", [x.i for x in s]))

    class Cal(Stand):
        def __init__(self, *a, **kw):
            log.append(("cal", kw))

        def apply(self, s):
            log.extend(("noise", x.i) for x in s)

    class Args(metaclass=PartialType):
        noise_calibration, varlss_as_additive_noise = noise
        coadd_arms = arms
    undo = rebind([M, M.qsonic.calibration, M.qsonic.picca_continuum],
                  PiccaContinuumFitter=Fit, NoiseCalibrator=Cal)
    try:
        out = M.mpi_continuum_fitting([Sp(i) for i in range(k)], Args, None,
                                      0)
    finally:
        undo()
    good = [i for i in range(k) if valid[i]]
    cx.check("only valid spectra are kept, each once, in order",
             [x.i for x in out] == good)
    both = noise == ("f", True)

    def of(kind):
        return sorted((x for x in log if x[0] == kind), key=lambda x: x[1])
    cx.check("additive noise exactly if asked for, once per valid spectrum",
             [x[1] for x in of("noise")] == (good if both else []))
    cx.check("var_lss only, no second eta", all(
        x[1].get("add_varlss") is True and x[1].get("no_eta") is True
        for x in log if x[0] == "cal"))
    cx.check("weights follow the new noise",
             of("weight") == [("weight", i, lss, eta) for i in good if both]
             and of("smooth") == [("smooth", i, 16.) for i in good if both])
    for i in good if both else []:
        cx.check("in this order", log.index(("noise", i)) < log.index(
            ("smooth", i, 16.)) < log.index(("weight", i, lss, eta)))
    aft = good if arms == "after" else []
    cx.check("arms are coadded with the weights of the fit",
             of("coadd") == [("coadd", i, lss, eta) for i in aft]
             and of("chi2") == [("chi2", i) for i in aft])
    for i in aft if both else []:
        cx.check("noise before the coadd",
                 log.index(("weight", i, lss, eta)) < log.index(
                     ("coadd", i, lss, eta)))
    cx.check("the catalog of fits has every spectrum once",
             [x[1] for x in log if x[0] == "cat"] == [list(range(k))])
