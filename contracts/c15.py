"""C15: stacked mean flux is the global weighted average."""
from vf.run import scenario
from contracts.common import *

ASSUME = ["every pixel lies inside the binning (documented precondition)"]
TRUSTED = ["MPI Allreduce: elementwise sum over ranks (lock-step stand-in)"]
W1, W2, DW = 3600., 3624., 8.
RF = [1040., 1044., 1048., 1052.]
DRF = 4.


def _stacker(cx, PC, comm=None):
    import numpy
    np = cx.np()
    return PC.FluxStacker(W1, W2, DW, np.array(RF), DRF, comm=comm)


def _pixels(cx, tag):
    n = cx.length(f"{tag}n", 1, conc=(1, 8))
    ob = [3600., 3603., 3607.999, 3608., 3612., 3616., 3623.5]
    rf = [1038., 1040., 1041.999, 1042., 1045., 1050., 1053.5]
    wave = cx.array(f"{tag}wave", n, lo=W1, hi=W2 - 0.001, pool=ob)
    wrf = cx.array(f"{tag}rf", n, lo=RF[0] - DRF / 2, hi=RF[-1] + DRF / 2
                   - 0.001, pool=rf)
    return dict(n=n, wave=wave, rf=wrf, wf=cx.array(f"{tag}wf", n),
                wc=cx.array(f"{tag}wc", n),
                w=cx.array(f"{tag}w", n, lo=0, pool=IVPOS))


def _expect(cx, label, px, key, lo, wkey, vkey, nb, dw, got, gotw, rf):
    """Weighted mean in every bin."""
    for b in range(nb):
        e0, e1 = lo + b * dw, lo + (b + 1) * dw

        def inb(p, k):
            return cx.And(p[key][k] >= e0, p[key][k] < e1)
        sw = sum((cx.sum(p["n"], lambda k, p=p: cx.ite(
            inb(p, k), p[wkey][k], 0.)) for p in px), 0.)
        sv = sum((cx.sum(p["n"], lambda k, p=p: cx.ite(
            inb(p, k), p[vkey][k], 0.)) for p in px), 0.)
        cx.check(label + " mean", cx.ite(
            sw > 0, cx.eq(got[b] * sw, sv), cx.eq(got[b], 0.)))
        if rf:
            cx.check(label + " error", cx.ite(
                sw > 0, cx.And(gotw[b] > 0, cx.eq(gotw[b]**2 * sw, 1.)),
                cx.eq(gotw[b], 0.)))
        else:
            cx.check(label + " weight", cx.eq(gotw[b], sw))


def _all(cx, st, px):
    _expect(cx, "observed", px, "wave", W1, "w", "wf", 3, DW,
            st.stacked_flux, st.weights, False)
    _expect(cx, "rest", px, "rf", RF[0] - DRF / 2, "w", "wc", 4, DRF,
            st.stacked_flux_rf, st.std_flux_rf, True)


@scenario("C15", ["FluxStacker.__init__", "FluxStacker.add",
                  "FluxStacker.calculate", "FluxStacker.reset"],
          quick_s=300, bound="3 observed and 4 rest-frame bins, any pixels")
def stack(cx):
    """One process: sums of the spectra since the last reset."""
    PC = cx.load("qsonic.picca_continuum")
    st = _stacker(cx, PC)
    hist = cx.choice("history", ["new", "used"])
    if hist == "used":
        p0 = _pixels(cx, "old")
        st.add(p0["wave"], p0["rf"], p0["wf"], p0["wc"], p0["w"])
        if cx.flag("calculated"):
            st.calculate()
    st.reset()
    px = [_pixels(cx, f"s{i}") for i in range(
        cx.choice("nspec", [1, 2] if hist == "new" else [1]))]
    for p in px:
        st.add(p["wave"], p["rf"], p["wf"], p["wc"], p["w"])
    st.calculate()
    _all(cx, st, px)


@scenario("C15", ["FluxStacker.calculate"], quick_s=300,
          bound="1 to 3 ranks, one spectrum each; 3 and 4 bins, any pixels")
def ranks(cx):
    """The same on every rank: the sum over all ranks."""
    size = cx.choice("size", [2, 3] if cx.thorough or not cx.symbolic
                     else [2])
    px = [_pixels(cx, f"r{r}") for r in range(size)]
    idle = cx.choice("idle", [None, 0]) if not cx.symbolic else None

    def body(comm, load):
        st = _stacker(cx, load("qsonic.picca_continuum"), comm)
        st.reset()
        r = comm.Get_rank()
        if r != idle:
            p = px[r]
            st.add(p["wave"], p["rf"], p["wf"], p["wc"], p["w"])
        st.calculate()
        return st
    out = cx.world(size, body)
    use = [p for r, p in enumerate(px) if r != idle]
    for st, ex in out if not cx.symbolic else out[-1:]:
        cx.no_exc("no failure", ex)
        _all(cx, st, use)


@scenario("C15", ["PiccaContinuumModel.stack_spectra",
                  "BaseContinuumModel.stack_spectra",
                  "PiccaContinuumFitter.update_mean_cont", "valid_spectra"],
          quick_s=200)
def contributions(cx):
    """What each spectrum contributes; only valid spectra do, each once,
    after a reset."""
    PC = cx.load("qsonic.picca_continuum")
    S = cx.load("qsonic.spectrum")
    kind = cx.choice("model", ["picca", "true", "input"])
    if kind == "picca":
        M = cx.load("qsonic.continuum_models.picca_continuum_model")
        m = M.PiccaContinuumModel(None, None, None, None, 1, 1., 1.,
                                  "iminuit")
    elif kind == "true":
        M = cx.load("qsonic.continuum_models.true_continuum_model")
        m = M.TrueContinuumModel(None, None)
    else:
        M = cx.load("qsonic.continuum_models.input_continuum_model")
        m = M.InputContinuumModel("", None, None, None)
    cx.check("residual or continuum", m.stacks_residual_flux() == (
        kind == "picca"))
    arms = ("B", "R")
    share, specs = None, []
    for i in range(2):
        sp, wave, n, z = forest(cx, S, arms, f"s{i}", share=share)
        share = (wave, n)
        c = {a: cx.array(f"s{i}cont_{a}", n[a], gt=0) for a in arms}
        w = {a: cx.array(f"s{i}wt_{a}", n[a], lo=0) for a in arms}
        sp.cont_params['cont'], sp.cont_params['valid'] = c, cx.flag(
            f"valid{i}")
        sp._forestweight = w
        specs.append((sp, c, w, z))

    class Stop(Exception):
        pass
    calls = []

    class Rec(Stand):
        def reset(self):
            calls.append("reset")

        def add(self, wave, wave_rf, weighted_flux, weighted_cont, weight):
            calls.append((wave, wave_rf, weighted_flux, weighted_cont,
                          weight))

        def calculate(self):
            calls.append("calculate")
            raise Stop()
    F = bare(PC.PiccaContinuumFitter)
    F.model, F.flux_stacker, F.mpi_rank = m, Rec(), 0
    try:
        F.update_mean_cont([s[0] for s in specs])
    except Stop:
        pass
    use = [s for s in specs if s[0].cont_params['valid']]
    cx.check("reset, add, calculate", calls[0] == "reset"
             and calls[-1] == "calculate"
             and all(isinstance(c, tuple) for c in calls[1:-1]))
    got = [c for c in calls if isinstance(c, tuple)]
    cx.check("every arm of every valid spectrum", len(got) == 2 * len(use))
    if len(got) != 2 * len(use):
        return
    for j, (sp, c, w, z) in enumerate(use):
        for a in arms:
            # the contributions of one spectrum may come in any order
            g = [x for x in got if x[0] is sp.forestwave[a]]
            cx.check("one contribution of the arm", len(g) == 1)
            if len(g) != 1:
                return
            g = g[0]
            fl = sp.forestflux[a]
            cx.forall("wavelengths", n[a], lambda k: cx.And(
                cx.eq(g[0][k], sp.forestwave[a][k]),
                cx.eq(g[1][k] * (1 + z), sp.forestwave[a][k])))
            cx.forall("weight", n[a], lambda k: cx.eq(
                g[4][k], w[a][k] * c[a][k]**2))
            cx.forall("flux", n[a], lambda k: cx.eq(
                g[2][k], w[a][k] * c[a][k] * fl[k]))
            cx.forall("rest-frame quantity", n[a], lambda k: cx.eq(
                g[3][k], w[a][k] * c[a][k] * fl[k] if kind == "picca" else
                w[a][k] * c[a][k]**3))


@scenario("C15", ["PiccaContinuumFitter._project_normalize_meancont",
                  "PiccaContinuumFitter.update_mean_cont"], sym=False,
          conc_n=24, bound="sampled")
def mean_continuum(cx):
    """The updated mean continuum is normalised and has no component along
    the fitted polynomials; empty bins are defined."""
    import numpy as np
    from scipy.interpolate import CubicSpline
    from scipy.special import legendre
    PC = cx.load("qsonic.picca_continuum")
    MT = cx.load("qsonic.mathtools")
    S = cx.load("qsonic.spectrum")
    F = bare(PC.PiccaContinuumFitter)
    F.cont_order = cx.choice("order", [0, 1, 2])
    F.mpi_rank, F.nbins = cx.choice("rank", [0, 1]), 12
    edges, F.dwrf = np.linspace(1040., 1200., 13, retstep=True)
    F.rfwave = (edges[1:] + edges[:-1]) / 2
    F._denom = np.log(F.rfwave[-1] / F.rfwave[0])
    fp = 1 + 0.25 * np.array(cx.array("fp", 12, lo=0, hi=4))
    F.meancont_interp = MT.FastCubic1DInterp(
        F.rfwave[0], F.dwrf, fp, copy=True, ep=np.zeros(12))
    M = cx.load("qsonic.continuum_models.picca_continuum_model")
    F.model = M.PiccaContinuumModel(
        F.meancont_interp, None, None, None, F.cont_order, F.rfwave[0],
        F._denom, "iminuit")
    F.flux_stacker = PC.FluxStacker(3600., 4200., 8., F.rfwave, F.dwrf)
    share, specs = None, []
    for i in range(3):
        sp, wave, n, z = forest(cx, S, ("B",), f"s{i}", share=share, z=2.5,
                                start=3660., step=8., conc=(40, 66))
        share = (wave, n)
        nb = len(sp.forestwave["B"])
        sp.cont_params['cont'] = {"B": np.full(nb, 2.)}
        sp.cont_params['valid'] = True
        sp.forestflux["B"][:] = 2 + 0.1 * np.cos(np.arange(nb) * (i + 1))
        sp._forestweight = {"B": np.full(nb, 25.)}
        specs.append(sp)
    conv = F.update_mean_cont(specs)
    y = F.meancont_interp.fp
    cx.check("defined", bool(np.all(np.isfinite(y)))
             and bool(np.all(np.isfinite(F.meancont_interp.ep))))
    x = np.log(F.rfwave / F.rfwave[0]) / F._denom

    def integ(v):
        return CubicSpline(x, v, bc_type='natural').integrate(0, 1)
    cx.check("normalised", abs(integ(y) - 1) < 1e-8)
    z, _ = F._project_normalize_meancont(y.copy())
    cx.check("projection", all(
        abs(integ(z * legendre(c)(2 * x - 1))) < 0.05
        for c in range(1, F.cont_order + 1)))
    cx.check("has_converged is a truth value", bool(conv) in (True, False))


@scenario("C15", ["PiccaContinuumFitter._normalize_flux",
                  "PiccaContinuumFitter._eta_calibate_ivar"], quick_s=60)
def final_scaling(cx):
    """Optional last steps: continua of valid spectra times the stacked
    flux, forest ivar over eta, each once."""
    PC = cx.load("qsonic.picca_continuum")
    S = cx.load("qsonic.spectrum")
    F = bare(PC.PiccaContinuumFitter)
    F.normalize_stacked_flux, F.eta_calib_ivar = cx.flag("norm"), cx.flag(
        "calib")
    F.flux_stacker = cx.fun("stacked", gt=0)
    F.eta_interp = cx.fun("eta", gt=0)
    share, specs = None, []
    for i in range(2):
        sp, wave, n, z = forest(cx, S, ("B",), f"s{i}", share=share)
        share = (wave, n)
        c = cx.array(f"s{i}cont", n["B"], gt=0)
        v = cx.flag(f"valid{i}")
        sp.cont_params['cont'] = {"B": c} if v else None
        sp.cont_params['valid'] = v
        specs.append((sp, c.copy(), snapshot(sp), v))
    lst = [s[0] for s in specs]
    F._normalize_flux(lst)
    F._eta_calibate_ivar(lst)
    for sp, c, (fl, iv, wv), v in specs:
        q = F.flux_stacker(wv["B"])
        e = F.eta_interp(wv["B"])
        if v:
            cx.forall("continuum", n["B"], lambda k: cx.eq(
                sp.cont_params['cont']["B"][k],
                c[k] * q[k] if F.normalize_stacked_flux else c[k]))
        else:
            cx.check("rejected spectra have no continuum",
                     sp.cont_params['cont'] is None)
        cx.forall("ivar", n["B"], lambda k: cx.eq(
            sp.forestivar["B"][k],
            iv["B"][k] / e[k] if F.eta_calib_ivar else iv["B"][k]))
