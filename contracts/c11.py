"""C11: short data are dropped whole; slicing keeps pixels aligned."""
from vf.run import scenario
from contracts.common import *

FIELDS = ("forestwave", "forestflux", "forestivar", "forestivar_sm",
          "forestweight")


def _state(cx, arms, reso, how, p=""):
    """A forest in one of the states it passes through: fresh (all three
    inverse variances are one object), smoothed, weighted."""
    S = cx.load("qsonic.spectrum")
    MT = cx.load("qsonic.mathtools")
    spec, wave, n, z = forest(cx, S, arms, reso=reso, conc=(2, 9),
                              start=10., step=2.)
    if "smooth" in how:
        sm = {a: cx.array(f"sm_{a}", n[a], lo=0) for a in arms}
        order = iter(arms)
        S.get_smooth_ivar = lambda ivar, *a, **k: sm[next(order)]
        spec.set_smooth_forestivar(cx.real("size", gt=0, hi=5))
    if "cont" in how:
        spec.cont_params["cont"] = {
            a: cx.array(f"cont_{a}", n[a], gt=0) for a in arms}
        spec.cont_params["valid"] = True
    if "weight" in how:
        spec.set_forest_weight(cx.fun("varlss", lo=0), cx.fun("eta", gt=0))
    return S, spec, wave, n, z


def _all(spec, arm):
    d = {k: getattr(spec, k)[arm] for k in FIELDS}
    if arm in spec.cont_params["cont"]:
        d["cont"] = spec.cont_params["cont"][arm]
    r = spec.forestreso.get(arm)
    return d, r


@scenario("C11", ["Spectrum.slice"], quick_s=300)
def slicing(cx):
    arms, reso, how = cx.choice("cfg", [
        (("B",), None, ()), (("B", "R"), 3, ()),
        (("B",), 3, ("smooth",)), (("B",), None, ("cont",)),
        (("B", "R"), 3, ("cont", "weight")),
        (("B",), 3, ("smooth", "cont", "weight"))])
    S, spec, wave, n, z = _state(cx, arms, reso, how)
    times = cx.choice("times", [1, 2])
    for t in range(times):
        m = cx.n(spec.forestwave["B"])
        i1 = cx.int(f"i1_{t}", 0, m)
        i2 = cx.int(f"i2_{t}", i1, m)
        old, r0 = _all(spec, "B")
        old = {k: v.copy() for k, v in old.items()}
        r0 = None if r0 is None else r0.copy()
        other = [{k: v.copy() for k, v in _all(spec, a)[0].items()}
                 for a in arms[1:]]
        spec.slice("B", i1, i2)
        new, r1 = _all(spec, "B")
        cx.check("fields", set(new) == set(old)
                 and (r1 is None) == (r0 is None))
        for k in old:
            cx.check(f"size {k}", cx.eq(cx.n(new[k]), i2 - i1))
        cx.forall("pixels aligned", i2 - i1, lambda j: cx.And(
            *[cx.eq(new[k][j], old[k][i1 + j]) for k in old]))
        if r0 is not None:
            cx.check("resolution shape", cx.And(
                cx.eq(r1.shape[0], 3), cx.eq(r1.shape[1], i2 - i1)))
            cx.forall("resolution aligned", (3, i2 - i1), lambda d, j: cx.eq(
                r1[d, j], r0[d, i1 + j]))
        for a, o in zip(arms[1:], other):
            nw = _all(spec, a)[0]
            cx.check("other arm size", cx.And(*[
                cx.eq(cx.n(nw[k]), n[a]) for k in o]))
            cx.forall("other arm unchanged", n[a], lambda j: cx.And(
                *[cx.eq(nw[k][j], o[k][j]) for k in o]))


@scenario("C11", ["Spectrum.drop_short_arms", "Spectrum.drop_arm"],
          quick_s=300)
def short_arms(cx):
    arms, reso, how = cx.choice("cfg", [
        (("B",), None, ()), (("B", "R"), 3, ()),
        (("B", "R"), None, ("smooth",)), (("B",), 3, ("cont",)),
        (("B", "R"), 3, ("smooth", "cont", "weight"))])
    S, spec, wave, n, z = _state(cx, arms, reso, how)
    l1 = cx.real("l1", gt=0, hi=2)
    dl = cx.real("dl", lo=0, hi=8)
    ratio = cx.real("ratio", lo=0, hi=1)
    olds = {a: ({k: v.copy() for k, v in _all(spec, a)[0].items()})
            for a in arms}
    default = cx.flag("default")
    need = 0. if default else ratio * ((1 + z) * dl / spec.dwave)
    if default:
        spec.drop_short_arms()
    else:
        spec.drop_short_arms(l1, l1 + dl, ratio)
    for a in arms:
        iv = olds[a]["forestivar"]
        c = cx.count(n[a], lambda k: iv[k] > 0)
        kept = a in spec.forestwave
        cx.check("kept iff it has enough pixels",
                 c > need if kept else cx.Not(c > need))
        cx.check("in every forest quantity alike", all(
            (a in getattr(spec, k)) == kept for k in FIELDS)
            and (a in spec.forestreso) == (kept and bool(reso))
            and (a in spec.cont_params["cont"]) == (kept and "cont" in how))
        if kept:
            new = _all(spec, a)[0]
            cx.check("sizes", cx.And(*[
                cx.eq(cx.n(new[k]), n[a]) for k in new]))
            cx.forall("kept arms unchanged", n[a], lambda j: cx.And(
                *[cx.eq(new[k][j], olds[a][k][j]) for k in new]))


@scenario("C11", ["Spectrum.is_long", "Spectrum.get_real_size"])
def long_enough(cx):
    arms = cx.choice("arms", [("B",), ("B", "R")])
    S, spec, wave, n, z = _state(cx, arms, None, ())
    dl = cx.real("dl", lo=0, hi=8)
    ratio = cx.real("ratio", lo=0, hi=1)
    c = 0
    for a in arms:
        iv = spec.forestivar[a]
        c = c + cx.count(n[a], lambda k: iv[k] > 0)
    r = spec.is_long(dl, ratio)
    cx.check("long iff enough unmasked pixels", cx.Iff(
        r, c > ratio * ((1 + z) * dl / spec.dwave)))
    cx.check("real size", cx.eq(spec.get_real_size(), c))


@scenario("C11", ["mpi_read_calibrate_mask_select_spectra",
                  "remove_short_spectra"], quick_s=60,
          bound="at most 3 spectra; any lengths and SNR")
def selected(cx):
    """Exactly the spectra that are long enough and have the requested SNR
    after calibration and masking are analysed, each once, in order."""
    from types import SimpleNamespace
    M = cx.load("qsonic.scripts.qsonic_fit")
    k = cx.choice("spectra", [0, 1, 2, 3])
    skip = cx.choice("skip", [0., 0.2])
    long_ = [cx.flag(f"long{i}") for i in range(k)]
    snr = [cx.real(f"snr{i}", lo=0, pool=[0., 0.5, 1., 2.])
           for i in range(k)]
    mn = cx.real("min_forestsnr", lo=0, pool=[0., 0.5, 1.])
    log = []

    class Sp(Stand):
        def __init__(self, i):
            self.i = i

        def is_long(self, dw, ratio):
            log.append(("long", self.i, dw, ratio))
            return long_[self.i]

        def get_effective_meansnr(self):
            log.append(("snr", self.i))
            return snr[self.i]
    M.mpi_read_spectra_local_queue = lambda *a: [Sp(i) for i in range(k)]
    M.mpi_noise_flux_calibrate = lambda s, *a: log.extend(
        ("cal", x.i) for x in s)
    M.apply_masks = lambda m, s, *a: log.extend(("mask", x.i) for x in s)
    args = Partial(forest_w1=1040., forest_w2=1200., skip=skip,
                           min_forestsnr=mn)
    out = M.mpi_read_calibrate_mask_select_spectra([], [], args, None, 0)
    ids = [x.i for x in out]
    cx.check("each once, in order", all(a < b for a, b in zip(ids, ids[1:])))
    for i in range(k):
        ok = bool(long_[i]) or skip == 0.
        want = cx.And(ok, snr[i] >= mn)
        cx.check("kept exactly if long enough with enough SNR",
                 want if i in ids else cx.Not(want))
    for x in log:
        if x[0] == "long":
            cx.check("fraction of the forest", x[2] == 1200. - 1040.
                     and x[3] == skip)
    for i in range(k):
        idx = {t: log.index((t, i)) for t in ("cal", "mask")}
        cx.check("after calibration and masking", all(
            j > max(idx.values()) for j, x in enumerate(log)
            if x[0] in ("long", "snr") and x[1] == i))
