"""C16: variance statistics count each unmasked pixel in its own bin."""
from vf.run import scenario
from vf.terms import Unsupported
from contracts.common import *

TRUSTED = ["MPI Allreduce: elementwise sum over ranks (lock-step stand-in)",
           "scipy curve_fit and UnivariateSpline (the model fit itself)"]
ASSUME = ["VarLSSFitter.add enters _fast_weighted_vector_bincount by the "
          "contract proved in `moments`"]
W1, W2, NW, DW = 3600., 3624., 3, 8.
EDGES = [1., 10., 100.]          # inverse variance, var 1 to 0.01
NV = 2
WPOOL = [3600., 3603., 3607.999, 3608., 3612., 3615.999, 3616., 3623.5]
IPOOL = [0., 0.5, 1., 1.001, 5., 10., 10.5, 99., 100., 100.5, 1e4]
NOTE = "3 wavelength and 2 variance bins; any number of pixels, any values"


def _fitter(cx, PC, comm=None, ns=2, **k):
    return PC.VarLSSFitter(W1, W2, NW, 0.01, 1., NV, ns, comm=comm, **k)


@scenario("C16", ["_fast_weighted_vector_bincount"], quick_s=60,
          note="loop invariant; any number of pixels and bins")
def moments(cx):
    """Sums of delta, delta^2, delta^4 and variance per bin."""
    PC = cx.load("qsonic.picca_continuum")
    n = cx.length("n", 1, conc=(1, 9))
    M = cx.length("M", 1, conc=(1, 5))
    x = cx.array("x", n, kind="i", lo=0, hi=M - 1)
    d = cx.array("delta", n)
    v = cx.array("var", n, lo=0)
    d2 = d**2
    vals = [d, d2, d2**2, v]
    d0, v0 = d.copy(), v.copy()
    b = cx.anyidx(M) if cx.symbolic else None
    if cx.symbolic:
        # ghost: partial sums for the bin b, defined by recursion
        ghost = [cx.array(f"ghost{m}", n + 1) for m in range(4)]
        for m in range(4):
            cx.assume(cx.eq(ghost[m][0], 0.))
            cx.assume_forall(n, lambda k, m=m: cx.eq(
                ghost[m][k + 1], ghost[m][k] + cx.ite(
                    cx.eq(x[k], b), vals[m][k], 0.)))

        def acc(L):
            r = [a for a in L.values() if getattr(a, "ndim", 0) == 2
                 and a.shape[0] == 4]
            if len(r) != 1:
                raise Unsupported("the loop's accumulator")
            return r
        cx.loop_inv(lambda L, i: [
            ("partial sums", 1, lambda _, m=m: cx.eq(
                acc(L)[0][m, b], ghost[m][i])) for m in range(4)], acc)
    r = PC._fast_weighted_vector_bincount(x, d, v, M)
    cx.check("shape", cx.And(cx.eq(r.shape[0], 4), cx.eq(r.shape[1], M)))
    for m in range(4):
        if cx.symbolic:
            cx.check("sums", cx.eq(r[m, b], ghost[m][n]))
        else:
            cx.forall("sums", M, lambda j: cx.eq(r[m, j], cx.sum(
                n, lambda k: vals[m][k] if x[k] == j else 0.)))
    cx.forall("input unchanged", n, lambda k: cx.And(
        cx.eq(d[k], d0[k]), cx.eq(v[k], v0[k])))


def _pixels(cx, tag, conc=(1, 12)):
    n = cx.length(f"{tag}n", 1, conc=conc)
    return dict(n=n, wave=cx.array(f"{tag}wave", n, lo=W1, hi=W2 - 0.001,
                                   pool=WPOOL),
                ivar=cx.array(f"{tag}ivar", n, lo=0, pool=IPOOL),
                delta=cx.array(f"{tag}delta", n))


def _bycontract(cx, PC):
    """Symbolically the moment sums enter by their contract."""
    if not cx.symbolic or not hasattr(PC, "_fast_weighted_vector_bincount"):
        return
    np = cx.np()

    def sums(x, delta, var, minlength):
        d2 = delta**2
        return np.vstack([np.bincount(x, weights=w, minlength=minlength)
                          for w in (delta, d2, d2**2, var)])
    PC._fast_weighted_vector_bincount = sums


def _inbin(cx, p, k, i, j):
    return cx.And(p["wave"][k] >= W1 + i * DW,
                  p["wave"][k] < W1 + (i + 1) * DW,
                  p["ivar"][k] > EDGES[j], p["ivar"][k] <= EDGES[j + 1])


def _slot(i, j):
    """Position of the bin among all (with under- and overflow)."""
    return (i + 1) * (NV + 2) + j + 1


def _zero(cx, F, label):
    for a in ("_num_pixels", "_num_qso"):
        cx.forall(label, F.minlength, lambda s: cx.eq(getattr(F, a)[s], 0))
    S = F.subsampler
    for i in range(S.nsamples):
        cx.forall(label, (4, F.minlength), lambda m, s: cx.And(
            cx.eq(S.all_measurements[i, m, s], 0.),
            cx.eq(S.all_weights[i, 0, s], 0.)))


@scenario("C16", ["VarLSSFitter.__init__", "VarLSSFitter.reset"],
          quick_s=100, bound=NOTE)
def start(cx):
    """Nothing is counted at first and after a reset."""
    PC = cx.load("qsonic.picca_continuum")
    _bycontract(cx, PC)
    F = _fitter(cx, PC)
    _zero(cx, F, "empty at first")
    used = cx.choice("used", ["add", "stats"])
    p0 = _pixels(cx, "old")
    F.add(p0["wave"], p0["delta"], p0["ivar"])
    if used == "stats":
        F.subsampler._normalize()
        F._stats_calculated = True
    F.reset()
    _zero(cx, F, "empty after reset")
    r, ex = cx.call(F.add, p0["wave"], p0["delta"], p0["ivar"])
    cx.no_exc("usable after reset", ex)


def _anystate(cx, F, tag=""):
    """Any history: the accumulators hold arbitrary numbers."""
    n = F.minlength
    F._num_pixels = cx.array(f"{tag}npix", n, kind="i", lo=0, hi=50)
    F._num_qso = cx.array(f"{tag}nqso", n, kind="i", lo=0, hi=50)
    return F._num_pixels.copy(), F._num_qso.copy()


@scenario("C16", ["VarLSSFitter.add", "VarLSSFitter.num_pixels",
                  "VarLSSFitter.num_qso"], quick_s=300, bound=NOTE)
def count(cx):
    """A spectrum adds its pixels, and one to the spectra, in each bin."""
    PC = cx.load("qsonic.picca_continuum")
    _bycontract(cx, PC)
    F = _fitter(cx, PC)
    n0, q0 = _anystate(cx, F)
    p = _pixels(cx, "s")
    F.add(p["wave"], p["delta"], p["ivar"])
    for i in range(NW):
        for j in range(NV):
            c = cx.count(p["n"], lambda k: _inbin(cx, p, k, i, j))
            t, s = i * NV + j, _slot(i, j)
            cx.check("number of pixels", cx.eq(F.num_pixels[t], n0[s] + c))
            cx.check("number of spectra", cx.eq(
                F.num_qso[t], q0[s] + cx.ite(c > 0, 1, 0)))


@scenario("C16", ["VarLSSFitter.add", "SubsampleCov.add_measurement"],
          quick_s=300, bound=NOTE)
def sums(cx):
    """Delta moments per bin: one spectrum enters one subsample."""
    PC = cx.load("qsonic.picca_continuum")
    _bycontract(cx, PC)
    F = _fitter(cx, PC)
    S = F.subsampler
    ns, n = 2, F.minlength
    it = S._isample = cx.choice("turn", [0, 1])
    S.all_measurements = cx.array("had", (ns, 4, n))
    S.all_weights = cx.array("hadw", (ns, 1, n), lo=0)
    m0, w0 = S.all_measurements.copy(), S.all_weights.copy()
    p = _pixels(cx, "s")
    keep = {k: p[k].copy() for k in ("wave", "delta", "ivar")}
    F.add(p["wave"], p["delta"], p["ivar"])
    which = cx.choice("moment", [0, 1, 2, 3])
    d2 = p["delta"]**2
    val = [p["delta"], d2, d2**2, None][which]

    def v(k):
        return val[k] if which < 3 else 1 / p["ivar"][k]
    for i in range(NW):
        for j in range(NV):
            s = _slot(i, j)
            e = cx.sum(p["n"], lambda k: cx.ite(
                _inbin(cx, p, k, i, j), v(k), 0.))
            cx.check("moment", cx.eq(
                S.all_measurements[it, which, s], m0[it, which, s] + e))
            if which == 0:
                cx.check("weight", cx.eq(
                    S.all_weights[it, 0, s], w0[it, 0, s] + cx.count(
                        p["n"], lambda k: _inbin(cx, p, k, i, j))))
            o = 1 - it
            cx.check("other subsample", cx.And(
                cx.eq(S.all_measurements[o, which, s], m0[o, which, s]),
                cx.eq(S.all_weights[o, 0, s], w0[o, 0, s])))
    cx.check("the next spectrum goes to the next subsample",
             cx.eq(S._isample, (it + 1) % ns))
    cx.forall("input unchanged", p["n"], lambda k: cx.And(
        *[cx.eq(p[a][k], keep[a][k]) for a in keep]))


class Stub(Stand):
    """SubsampleCov by contract: arbitrary estimates."""

    def __init__(self, mean, var, cov):
        self.m, self.v, self.c = mean, var, cov
        self.mean = self.variance = self.covariance = None
        self.calls = []

    def allreduce(self, comm, inplace):
        self.calls.append("allreduce")

    def get_mean(self):
        self.mean = self.m
        return self.m

    def get_mean_n_var(self, bias_correct=False):
        assert not bias_correct
        self.mean, self.variance = self.m, self.v
        return self.m, self.v

    def get_mean_n_cov(self, indices=None, blockdim=None,
                       bias_correct=False):
        assert blockdim == NV + 2 and not bias_correct
        self.mean = self.m
        self.covariance = [self.c[i] if indices is None or i in indices
                           else None for i in range(4)]
        return self.m, self.covariance


@scenario("C16", ["VarLSSFitter.calculate_subsampler_stats",
                  "VarLSSFitter.mean_delta", "VarLSSFitter.var_delta",
                  "VarLSSFitter.e_var_delta", "VarLSSFitter.var2_delta",
                  "VarLSSFitter.var_centers", "VarLSSFitter.e_var_centers",
                  "VarLSSFitter.cov_var_delta"], quick_s=200, bound=NOTE)
def statistics(cx):
    """Variance and its error from the moments, once."""
    PC = cx.load("qsonic.picca_continuum")
    cov = cx.flag("cov")
    F = _fitter(cx, PC, use_cov=cov)
    ml = (NV + 2) * (NW + 2)
    nb = NW + 2
    m = cx.array("mean", (4, ml))
    v = cx.array("var", (4, ml), lo=0)
    c = [cx.array(f"cov{i}", (nb, NV + 2, NV + 2)) if cov and i < 2 else None
         for i in range(4)]
    np_ = cx.array("npix", ml, kind="i", lo=0, hi=1000)
    F._num_pixels = np_.copy()
    m0, v0 = m.copy(), v.copy()
    c0 = [x if x is None else x.copy() for x in c]
    F.subsampler = Stub(m, v, c)
    for _ in range(cx.choice("calls", [1, 2])):
        F.calculate_subsampler_stats()
    for i in range(NW):
        for j in range(NV):
            s, t = _slot(i, j), i * NV + j
            mean, vd = m0[0, s], m0[1, s] - m0[0, s]**2
            cx.check("mean", cx.eq(F.mean_delta[t], mean))
            cx.check("variance", cx.eq(F.var_delta[t], vd))
            cx.check("pipeline variance", cx.eq(F.var_centers[t], m0[3, s]))
            e = F.e_var_centers[t]
            cx.check("its error", cx.And(e >= 0, cx.eq(e * e, v0[3, s])))
            g2 = m0[2, s] - vd**2
            cx.check("variance of delta^2", cx.ite(
                np_[s] > 0, cx.eq(F.var2_delta[t] * np_[s], g2),
                cx.eq(F.var2_delta[t], g2)))
            if not cov:
                jk = v0[1, s] + 4 * mean**2 * v0[0, s] + 2 * v0[0, s]**2
                e = F.e_var_delta[t]
                g = F.var2_delta[t]
                cx.check("error of the variance", cx.And(
                    e >= 0, cx.eq(e * e, cx.ite(jk > g, jk, g))))
    if cov:
        C = F.cov_var_delta
        cx.check("covariance shape", tuple(C.shape) == (NW, NV, NV))
        for i in range(NW):
            for a in range(NV):
                for b in range(NV):
                    s, t = _slot(i, a), _slot(i, b)
                    x = c0[0][i + 1, a + 1, b + 1]
                    cx.check("covariance", cx.eq(
                        C[i, a, b], c0[1][i + 1, a + 1, b + 1]
                        + v0[0, s] * v0[0, t] + x**2
                        + 2 * x * m0[0, s] * m0[0, t]
                        + v0[0, s] * m0[0, t]**2 + v0[0, t] * m0[0, s]**2))
    else:
        cx.check("no covariance", F.cov_var_delta is None)


@scenario("C16", ["VarLSSFitter.calculate_subsampler_stats",
                  "SubsampleCov.allreduce"], quick_s=200,
          bound="2 ranks; " + NOTE)
def totals(cx):
    """The numbers on every rank are the sums over ranks."""
    size, ns = 2, 2
    had = {}

    def body(comm, load):
        PC = load("qsonic.picca_continuum")
        F = _fitter(cx, PC, comm, ns)
        r = comm.Get_rank()
        n0, q0 = _anystate(cx, F, f"r{r}")
        S, n = F.subsampler, F.minlength
        S.all_measurements = cx.array(f"r{r}m", (ns, 4, n))
        S.all_weights = cx.array(f"r{r}w", (ns, 1, n), lo=0)
        had[r] = (n0, q0, S.all_measurements.copy(), S.all_weights.copy())
        S.get_mean_n_var = lambda: None
        S.mean = cx.np().zeros((4, n))
        S.variance = cx.np().zeros((4, n))
        F.calculate_subsampler_stats()
        return F
    for F, ex in cx.world(size, body):
        cx.no_exc("no failure", ex)
        S = F.subsampler
        for i in range(NW):
            for j in range(NV):
                t, s = i * NV + j, _slot(i, j)
                cx.check("pixels and spectra", cx.And(
                    cx.eq(F.num_pixels[t], had[0][0][s] + had[1][0][s]),
                    cx.eq(F.num_qso[t], had[0][1][s] + had[1][1][s])))
                for q in range(ns):
                    cx.check("subsamples", cx.And(
                        cx.eq(S.all_weights[q, 0, s],
                              had[0][3][q, 0, s] + had[1][3][q, 0, s]),
                        *[cx.eq(S.all_measurements[q, m, s],
                                had[0][2][q, m, s] + had[1][2][q, m, s])
                          for m in range(4)]))


@scenario("C16", ["VarLSSFitter.calculate_subsampler_stats",
                  "VarLSSFitter.__init__", "VarLSSFitter.add"], sym=False,
          conc_n=60, bound="sampled end to end: up to 3 ranks, 3 spectra")
def ranks(cx):
    """End to end: the same statistics for any division over ranks."""
    size = cx.choice("size", [1, 2, 3])
    px = [_pixels(cx, f"s{r}", (1, 12)) for r in range(3)]
    at = [cx.choice(f"at{i}", list(range(size))) for i in range(3)]

    def body(comm, load):
        PC = load("qsonic.picca_continuum")
        F = _fitter(cx, PC, comm, 3)
        for p, r in zip(px, at):
            if r == comm.Get_rank():
                F.add(p["wave"], p["delta"], p["ivar"])
        F.calculate_subsampler_stats()
        return F
    for F, ex in cx.world(size, body):
        cx.no_exc("no failure", ex)
        for i in range(NW):
            for j in range(NV):
                d = [float(p["delta"][k]) for p in px for k in range(p["n"])
                     if _inbin(cx, p, k, i, j)]
                t = i * NV + j
                cx.check("number of pixels", F.num_pixels[t] == len(d))
                if not d:
                    cx.check("empty bin", F.var_delta[t] == 0
                             and F.mean_delta[t] == 0)
                    continue
                m = sum(d) / len(d)
                cx.check("mean of all ranks", cx.eq(F.mean_delta[t], m))
                cx.check("variance of all ranks", cx.eq(
                    F.var_delta[t], sum(x * x for x in d) / len(d) - m * m))


@scenario("C16", ["PiccaContinuumFitter.update_var_lss_eta",
                  "valid_spectra"], quick_s=100)
def contributions(cx):
    """Only valid spectra contribute, each arm once, after a reset: the
    delta of its continuum and the inverse variance of that delta; the fit
    replaces var_lss (and eta when it is fitted)."""
    PC = cx.load("qsonic.picca_continuum")
    S = cx.load("qsonic.spectrum")
    arms = ("B", "R")
    share, specs = None, []
    for i in range(2):
        sp, wave, n, z = forest(cx, S, arms, f"s{i}", share=share)
        share = (wave, n)
        c = {a: cx.array(f"s{i}cont_{a}", n[a], gt=0) for a in arms}
        ok = cx.flag(f"valid{i}")
        sp.cont_params['cont'] = c if ok else None
        sp.cont_params['valid'] = ok
        # smoothed values are for weights only
        sp._forestivar_sm = {a: cx.array(f"s{i}sm_{a}", n[a], lo=0)
                             for a in arms}
        specs.append((sp, c, snapshot(sp), ok))
    calls = []
    np = cx.np()
    fe = cx.flag("fit_eta")
    y = cx.array("fit", (3, 2) if fe else 3)
    e = cx.array("err", (3, 2) if fe else 3)
    lss, eta = cx.array("lss0", 3), cx.array("eta0", 3)

    class Rec(Stand):
        nwbins = 3
        waveobs = np.array([1., 2., 3.])

        def reset(self):
            calls.append("reset")

        def add(self, wave, delta, ivar):
            calls.append((wave, delta, ivar))

        def fit(self, initial_guess, smooth=True):
            calls.append(("fit", initial_guess))
            return y, e

    class Interp(Stand):
        def __init__(self, fp):
            self.fp, self.ep = fp, fp

        def reset(self, fp, copy=False, ep=None):
            self.fp, self.ep = fp, ep
    F = bare(PC.PiccaContinuumFitter)
    F.varlss_fitter, F.fit_eta, F.mpi_rank = Rec(), fe, 1
    F.varlss_interp, F.eta_interp = Interp(lss), Interp(eta)
    F.update_var_lss_eta([s[0] for s in specs])
    use = [s for s in specs if s[3]]
    cx.check("reset, add, fit", calls[0] == "reset" and len(calls) == 2
             + 2 * len(use) and calls[-1][0] == "fit")
    if len(calls) != 2 + 2 * len(use):
        return
    for sp, c, (fl, iv, wv), _ in use:
        for a in arms:
            g = [x for x in calls[1:-1] if x[0] is sp.forestwave[a]]
            cx.check("one contribution of the arm", len(g) == 1)
            if len(g) != 1:
                return
            g = g[0]
            cx.forall("delta", n[a], lambda k: cx.And(
                cx.eq((g[1][k] + 1) * c[a][k], fl[a][k]),
                cx.eq(g[2][k], iv[a][k] * c[a][k]**2),
                cx.eq(g[0][k], wv[a][k])))
    for k in range(3):
        cx.check("starting point", cx.And(
            cx.eq(calls[-1][1][k, 0], lss[k]),
            cx.eq(calls[-1][1][k, 1], eta[k])) if fe
            else cx.eq(calls[-1][1][k], lss[k]))
        cx.check("results", cx.And(
            cx.eq(F.varlss_interp.fp[k], y[k, 0] if fe else y[k]),
            cx.eq(F.varlss_interp.ep[k], e[k, 0] if fe else e[k]),
            cx.eq(F.eta_interp.fp[k], y[k, 1] if fe else eta[k])))


@scenario("C16", ["VarLSSFitter.fit", "VarLSSFitter._get_wave_bin_slice_"
                  "params"], sym=False, conc_n=24, bound="sampled; curve_fit "
          "replaced by a recorder")
def fitted_bins(cx):
    """The fit sees exactly the bins with enough pixels and spectra."""
    import numpy as np
    PC = cx.load("qsonic.picca_continuum")
    nv = 8
    F = PC.VarLSSFitter(W1, W2, 3, 0.01, 1., nv, 2)
    ml = F.minlength
    npx = np.array([cx.choice(f"np{k}", [0, 249, 250, 499, 500, 501, 900])
                    for k in range(3 * nv)])
    nq = np.array([cx.choice(f"nq{k}", [0, 24, 25, 49, 50, 80, 90])
                   for k in range(3 * nv)])
    good = cx.choice("good", [0, 1, 2, 3])
    for i in range(good):
        npx[i * nv:(i + 1) * nv - 1] = 600
        nq[i * nv:(i + 1) * nv - 1] = 60
    F._num_pixels[F.wvalid_bins] = npx
    F._num_qso[F.wvalid_bins] = nq
    rng = np.arange(ml)
    F._stats_calculated = True
    F.subsampler.mean = np.vstack([0 * rng, 2. + rng, 0 * rng, 100. + rng])
    F.subsampler.variance = np.full((4, ml), 4.)
    # any rank takes the same decisions; a fit of a bin may fail
    F.mpi_rank = cx.choice("rank", [0, 1, 3])
    fails = cx.choice("failing", [None, 0, 1, 2])
    seen = []

    def fake(f, x, yy, p0=None, sigma=None, **k):
        seen.append((list(x), list(yy), list(sigma)))
        if len(seen) - 1 == fails:
            raise RuntimeError("no minimum")
        return np.array([0.1 * len(seen)]), np.array([[0.01]])
    PC.curve_fit = fake
    exp, exp_x = [], []
    for i in range(3):
        s = slice(i * nv, (i + 1) * nv)
        w = (npx[s] >= 500) & (nq[s] >= 50)
        if w.sum() < 5:
            w = (npx[s] >= 250) & (nq[s] >= 25)
        if w.sum() < 5:
            exp.append(None)
            continue
        exp.append(len(exp_x))
        exp_x.append(list((np.arange(nv) + (i + 1) * (nv + 2) + 1)[w]))
    r, ex = cx.call(F.fit, np.full(3, 0.1), smooth=False)
    if fails is not None and fails < len(exp_x):
        exp[exp.index(fails)] = None
    if exp.count(None) / 3 > 0.4:
        cx.check_raises("too few bins", ex, Exception)
        return
    cx.no_exc("fit", ex)
    cx.check("fitted bins", [[round(a - 100) for a in s[0]] for s in seen]
             == exp_x and [[round(a - 2) for a in s[1]] for s in seen]
             == exp_x and all(abs(a - 2) < 1e-9 for s in seen for a in s[2]))
    for i in range(3):
        cx.check("result of its own bin", abs(
            r[0][i] - (0 if exp[i] is None else 0.1 * (exp[i] + 1))) < 1e-9)
