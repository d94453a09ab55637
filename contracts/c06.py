"""C06: the forest window selects exactly the analysis pixels."""
from vf.run import scenario
from contracts.common import *


def _window(cx, p="", simple=False):
    if simple:
        # the observed limits decide
        w1 = cx.real(p + "w1", gt=0, hi=40)
        w2 = cx.real(p + "w2", gt=0, hi=60)
        return w1, w2, 0., 1e9
    w1 = cx.real(p + "w1", gt=0, hi=40)
    w2 = cx.real(p + "w2", gt=0, hi=60)
    lya1 = cx.real(p + "lya1", gt=0, hi=20)
    lya2 = cx.real(p + "lya2", gt=0, hi=30)
    return w1, w2, lya1, lya2


def _limits(cx, z, w1, w2, lya1, lya2):
    a, b = (1 + z) * lya1, (1 + z) * lya2
    # cases, so that each is one term
    return a if cx.is_true(a > w1) else w1, b if cx.is_true(b < w2) else w2


def _bounds(cx, wave, n, l1, l2):
    """First index and number of pixels of the window (lemma: these are
    exactly the pixels inside)."""
    np = cx.np()
    f1, f2 = np.searchsorted(wave, l1), np.searchsorted(wave, l2)
    cx.forall("window is an index range", n, lambda s: cx.Iff(
        cx.And(wave[s] >= l1, wave[s] < l2), cx.And(s >= f1, s < f2)))
    m = cx.n(wave[f1:f2])
    cx.check("window length", cx.eq(m, cx.ite(f2 > f1, f2 - f1, 0)))
    return f1, m


def _contents(cx, spec, arms, wave, n, l1, l2, f0, i0, reso, tag=""):
    np = cx.np()
    fields = dict(wave=spec.forestwave, flux=spec.forestflux,
                  ivar=spec.forestivar, ivar_sm=spec.forestivar_sm,
                  weight=spec.forestweight)
    if reso:
        fields["reso"] = spec.forestreso
    else:
        cx.check(tag + "no resolution", not spec.forestreso)
    for a in arms:
        f1, m = _bounds(cx, wave[a], n[a], l1, l2)
        pres = a in spec.forestwave
        has = cx.exists(m, lambda k: i0[a][f1 + k] > 0)
        cx.check(tag + "arm in forest iff it has a valid pixel",
                 has if pres else cx.Not(has))
        cx.check(tag + "arms of all forest fields agree",
                 all((a in d) == pres for d in fields.values()))
        cx.check(tag + "mean_snr arms", (a in spec.mean_snr) == pres)
        if not pres:
            continue
        for k in ("wave", "flux", "ivar", "ivar_sm", "weight"):
            cx.check(tag + f"size {k}", cx.eq(cx.n(fields[k][a]), m))
        fw, ff, fi = (spec.forestwave[a], spec.forestflux[a],
                      spec.forestivar[a])
        cx.forall(tag + "aligned values", m, lambda k: cx.And(
            cx.eq(fw[k], wave[a][f1 + k]), cx.eq(ff[k], f0[a][f1 + k]),
            cx.eq(fi[k], i0[a][f1 + k]),
            cx.eq(spec.forestivar_sm[a][k], i0[a][f1 + k]),
            cx.eq(spec.forestweight[a][k], i0[a][f1 + k])))
        if reso:
            r = spec.forestreso[a]
            cx.check(tag + "reso shape", cx.And(
                cx.eq(r.shape[0], 3), cx.eq(r.shape[1], m)))
            cx.forall(tag + "aligned resolution", (3, m), lambda d, k: cx.eq(
                r[d, k], spec.reso[a][d, f1 + k]))


@scenario("C06", ["Spectrum.set_forest_region"], quick_s=400)
def region(cx):
    S = cx.load("qsonic.spectrum")
    arms, reso = cx.choice("cfg", [
        (("B",), 3), (("B", "R"), None), (("B", "R"), 3)])
    spec, wave, n, z = mkspec(cx, S, arms, reso=reso)
    w = _window(cx)
    l1, l2 = _limits(cx, z, *w)
    f0 = {a: spec.flux[a].copy() for a in arms}
    i0 = {a: spec.ivar[a].copy() for a in arms}
    spec.set_forest_region(*w)
    _contents(cx, spec, arms, wave, n, l1, l2, f0, i0, reso)
    cx.check("forest arms", set(spec.forestwave) <= set(arms))
    # copies: the forest can change without touching the full arrays
    for a in list(spec.forestwave):
        spec.forestwave[a][:] = 1.
        spec.forestflux[a][:] = 2.
        spec.forestivar[a][:] = 3.
    for a in arms:
        cx.forall("full arrays unchanged", n[a], lambda k: cx.And(
            cx.eq(spec.flux[a][k], f0[a][k]),
            cx.eq(spec.ivar[a][k], i0[a][k]),
            cx.eq(spec.wave[a][k], wave[a][k])))


@scenario("C06", ["Spectrum.set_forest_region"], quick_s=400)
def region_again(cx):
    """The second call fully determines the forest."""
    S = cx.load("qsonic.spectrum")
    reso = 3 if cx.flag("reso") else None
    arms = ("B",)
    spec, wave, n, z = mkspec(cx, S, arms, reso=reso)
    spec.set_forest_region(*_window(cx, "old_", True))
    change = cx.flag("masked_between")
    if change:
        a = "B"
        spec.ivar[a][:] = cx.array("ivar2", n[a], lo=0, pool=IVPOS)
    w = _window(cx)
    l1, l2 = _limits(cx, z, *w)
    f0 = {a: spec.flux[a].copy() for a in arms}
    i0 = {a: spec.ivar[a].copy() for a in arms}
    spec.set_forest_region(*w)
    _contents(cx, spec, arms, wave, n, l1, l2, f0, i0, reso, "again: ")


@scenario("C06", ["Spectrum._set_forest_related_parameters",
                  "Spectrum.get_effective_meansnr", "Spectrum.get_real_size"])
def statistics(cx):
    S = cx.load("qsonic.spectrum")
    arms = cx.choice("cfg", [("B",), ("B", "R")])
    spec, wave, n, z = mkspec(cx, S, arms)
    spec.set_forest_region(*_window(cx, simple=True))
    num, den, cnt, e3, e2 = 0, 1e-6, 0, 0, 1e-8
    x0, x1 = spec.cont_params['x'][0], spec.cont_params['x'][1]
    for a in spec.forestwave:
        f, i = spec.forestflux[a], spec.forestivar[a]
        m = cx.n(f)
        num = num + cx.sum(m, lambda k: cx.ite(f[k] > 0, f[k] * i[k], 0.))
        den = den + cx.sum(m, lambda k: cx.ite(f[k] > 0, i[k], 0.))
        c = cx.count(m, lambda k: i[k] > 0)
        cnt = cnt + c
        np = cx.np()
        s = cx.sum(m, lambda k: np.sqrt(i[k]) * f[k])
        cx.check("mean snr", cx.eq(spec.mean_snr[a] * c, s))
        e3 = e3 + spec.mean_snr[a]**3
        e2 = e2 + spec.mean_snr[a]**2
    cx.check("initial amplitude", cx.eq(x0 * den, num))
    cx.check("slope untouched", cx.eq(x1, 0.))
    cx.check("real size", cx.eq(spec.get_real_size(), cnt))
    cx.check("effective snr", cx.eq(spec.get_effective_meansnr() * e2, e3))


@scenario("C06", ["Spectrum._set_rsnr"])
def red_snr(cx):
    """rsnr: SNR redward of the quasar's Lya line."""
    S = cx.load("qsonic.spectrum")
    np = cx.np()
    arms = cx.choice("cfg", [("B",), ("B", "R")])
    n, wave, flux, ivar, mask = {}, {}, {}, {}, {}
    for a in arms:
        n[a] = cx.length(f"n_{a}", 2, conc=(2, 6))
        wave[a] = cx.sorted_array(f"wave_{a}", n[a], gt=0, start=2400.,
                                  step=400.)
        flux[a] = cx.array(f"flux_{a}", (1, n[a]))
        ivar[a] = cx.array(f"ivar_{a}", (1, n[a]), lo=0, pool=IVPOS)
        mask[a] = np.zeros((1, n[a]), dtype=int)
    z = cx.real("z", gt=0, hi=3)
    spec = S.Spectrum.from_dictionary(
        cx.row(TARGETID=1, Z=z, RA=0., DEC=0., HPXPIXEL=1),
        dict(wave=wave, flux=flux, ivar=ivar, mask=mask, reso={}), 0)
    lya = (1 + z) * 1215.67
    num, den = 0, 1e-6
    for a in arms:
        f1 = np.searchsorted(wave[a], lya)
        cx.forall("redward", n[a], lambda k: cx.Iff(wave[a][k] >= lya,
                                                    k >= f1))
        f, i = spec.flux[a], spec.ivar[a]
        num = num + cx.sum(n[a] - f1, lambda k: np.sqrt(
            i[f1 + k]) * f[f1 + k])
        den = den + cx.count(n[a] - f1, lambda k: i[f1 + k] > 0)
    cx.check("rsnr", cx.eq(spec.rsnr * den, num))
