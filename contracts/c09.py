"""C09: forest weights and chi2 follow the pipeline noise model."""
from vf.run import scenario
from contracts.common import *

ASSUME = ["eta(lambda) > 0 and varlss(lambda) >= 0",
          "Gaussian smoothing (FFT) of positive errors is positive: "
          "fft_gaussian_smooth enters by this contract in the proofs and is "
          "compared with a direct convolution on samples"]


def _smoother(cx, MT):
    """fft_gaussian_smooth by its contract: same size, positive for positive
    data."""
    calls = []
    if not cx.symbolic:
        real = MT.fft_gaussian_smooth

        def sm(x, sigma_pix=20, mode='edge'):
            calls.append((sigma_pix, cx.n(x)))
            return real(x, sigma_pix, mode)
    else:
        def sm(x, sigma_pix=20, mode='edge'):
            calls.append((sigma_pix, cx.n(x)))
            return cx.array(f"smooth{len(calls)}", cx.n(x), gt=0)
    MT.fft_gaussian_smooth = sm
    return calls


def _setup(cx, arms, smoothing):
    MT = cx.load("qsonic.mathtools")
    calls = _smoother(cx, MT)
    S = cx.load("qsonic.spectrum")
    spec, wave, n, z = forest(cx, S, arms, start=10., step=2., conc=(2, 9))
    if smoothing:
        size = cx.real("size", gt=0, hi=20)
        spec.set_smooth_forestivar(size)
    return S, spec, wave, n, calls, (size if smoothing else 0)


@scenario("C09", ["Spectrum.set_smooth_forestivar",
                  "mathtools.get_smooth_ivar"], quick_s=200)
def smoothing(cx):
    arms = cx.choice("arms", [("B",), ("B", "R")])
    S, spec, wave, n, calls, size = _setup(cx, arms, False)
    old = snapshot(spec)
    size = cx.real("size", gt=0, hi=20)
    spec.set_smooth_forestivar(size)
    cx.check("smoothing scale in pixels", cx.And(
        len(calls) == len(arms), *[cx.eq(c[0] * spec.dwave, size)
                                   for c in calls]))
    f0, i0, w0 = old
    for a in arms:
        sm, wt = spec.forestivar_sm[a], spec.forestweight[a]
        cx.check("size", cx.eq(cx.n(sm), n[a]))
        cx.forall("mask kept", n[a], lambda k: cx.And(
            cx.Iff(sm[k] > 0, i0[a][k] > 0),
            cx.Or(sm[k] > 0, cx.eq(sm[k], 0.)),
            cx.eq(wt[k], sm[k])))
        cx.forall("raw values unchanged", n[a], lambda k: cx.And(
            cx.eq(spec.forestivar[a][k], i0[a][k]),
            cx.eq(spec.forestflux[a][k], f0[a][k]),
            cx.eq(spec.forestwave[a][k], w0[a][k])))
    # undone by a scale that is not positive
    spec.set_smooth_forestivar(cx.real("size2", lo=-2, hi=0))
    for a in arms:
        sm, wt = spec.forestivar_sm[a], spec.forestweight[a]
        cx.check("undone: size", cx.eq(cx.n(sm), n[a]))
        cx.forall("undone", n[a], lambda k: cx.And(
            cx.eq(sm[k], i0[a][k]), cx.eq(wt[k], i0[a][k])))


@scenario("C09", ["mathtools.get_smooth_ivar",
                  "mathtools.fft_gaussian_smooth"], sym=False, conc_n=150,
          bound="sampled inputs only: medians and FFTs")
def smooth_values(cx):
    MT = cx.load("qsonic.mathtools")
    np = cx.np()
    n = cx.length("n", 2, conc=(3, 20))
    sig = cx.real("sig", gt=0.2, hi=4)
    x = cx.array("x", n, gt=0)
    y = MT.fft_gaussian_smooth(x, sig)
    pad = max(1, int(3 * sig))
    p = np.concatenate((np.full(pad, x[0]), x, np.full(pad, x[-1])))
    N = p.size
    f = np.fft.fftfreq(N)
    g = np.array([np.sum(np.exp(-(f * sig)**2 / 2) * np.cos(
        2 * np.pi * f * j)) / N for j in range(N)])
    d = np.array([sum(p[j] * g[(i - j) % N] for j in range(N))
                  for i in range(N)])[pad:-pad]
    cx.check("same size", cx.eq(cx.n(y), n))
    cx.forall("Gaussian smoothing", n, lambda k: cx.eq(y[k], d[k]))
    iv = cx.array("iv", n, lo=0, pool=[0., 1., 1., 2., 1.5, 0.01])
    if not (iv > 0).any():
        return
    es = 3.5
    if cx.flag("es"):
        es = 2.
        r = MT.get_smooth_ivar(iv, sig, es)
    else:
        r = MT.get_smooth_ivar(iv, sig)
    ok = iv > 0
    err = np.where(ok, 1 / np.sqrt(np.where(ok, iv, 1)), 0)
    med = np.median(err[ok])
    err[~ok] = med
    mad = np.median(np.abs(err[ok] - med)) * 1.4826
    out = err - med > es * mad
    e2 = MT.fft_gaussian_smooth(np.where(out, med, err), sig)
    e2[out] = err[out]
    cx.forall("smoothed ivar", n, lambda k: cx.eq(
        r[k], 1 / e2[k]**2 if ok[k] else 0.))


@scenario("C09", ["Spectrum.set_forest_weight",
                  "Spectrum.calc_continuum_chi2"], quick_s=200)
def weights(cx):
    arms, sm, state = cx.choice("cfg", [
        (("B",), False, "valid"), (("B", "R"), True, "valid"),
        (("B", "R"), False, "valid"), (("B",), True, "flagged"),
        (("B",), False, "flagged"), (("B",), True, "none"),
        (("B", "R"), False, "none")])
    S, spec, wave, n, calls, size = _setup(cx, arms, sm)
    vl, et = cx.fun("varlss", lo=0), cx.fun("eta", gt=0)
    cont = {a: cx.array(f"cont_{a}", n[a], gt=0) for a in arms}
    spec.cont_params["valid"] = state != "flagged"
    spec.cont_params["cont"] = {} if state == "none" else cont
    i0 = {a: spec.forestivar_sm[a].copy() for a in arms}
    old = snapshot(spec)
    again = cx.flag("again")
    if again:
        # a previous setting leaves nothing behind
        spec.set_forest_weight(lambda w: 3. * w, lambda w: w * 2.)
    args = cx.choice("args", ["both", "default", "kw"])
    if args == "both":
        spec.set_forest_weight(vl, et)
    elif args == "kw":
        spec.set_forest_weight(eta_interp=et)
    else:
        spec.set_forest_weight()
    for a in arms:
        w, i = spec.forestweight[a], i0[a]
        v = vl(wave[a]) if args == "both" else None
        e = et(wave[a]) if args != "default" else None
        cx.check("size", cx.eq(cx.n(w), n[a]))

        def rule(k):
            if state != "valid":
                return cx.eq(w[k], i[k])
            den = 1. if e is None else e[k]
            if v is not None:
                den = den + i[k] * (v[k] * cont[a][k]**2)
            return cx.And(
                cx.eq(w[k], i[k] / den),
                cx.Iff(w[k] > 0, old[1][a][k] > 0), w[k] >= 0)
        cx.forall("weight rule", n[a], rule)
        cx.forall("inputs unchanged", n[a], lambda k: cx.And(
            cx.eq(spec.forestivar[a][k], old[1][a][k]),
            cx.eq(spec.forestflux[a][k], old[0][a][k]),
            cx.eq(spec.forestivar_sm[a][k], i[k])))
    chi2 = spec.calc_continuum_chi2()
    if state != "valid":
        cx.check("chi2 of an invalid continuum", cx.And(
            cx.eq(chi2, -1), cx.eq(spec.cont_params['chi2'], -1)))
        return
    s = 0
    for a in arms:
        w, f = spec.forestweight[a], spec.forestflux[a]
        c = cont[a]
        s = s + cx.sum(n[a], lambda k: w[k] * (f[k] - c[k])**2)
    cx.check("chi2", cx.And(cx.eq(chi2, s),
                            cx.eq(spec.cont_params['chi2'], s)))
